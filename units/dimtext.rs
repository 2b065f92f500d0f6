// Shared: what a dimIndex text denotes.
//@ include text.rs
//@ module spec
// ---------------------------------------------------------------- dimIndex texts
pub open spec fn first_dash(s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && s[k] == '-' && no_char(s.take(k), '-') }
pub open spec fn is_lower_letter(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn is_upper_letter(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn dec_range(a: int, b: int) -> Seq<Seq<char>> { if a <= b { Seq::new((b - a + 1) as nat, |i: int| dec((a + i) as nat)) } else { Seq::empty() } }
pub open spec fn letter_range(a: int, b: int) -> Seq<Seq<char>> { if a <= b { Seq::new((b - a + 1) as nat, |i: int| seq![((a + i) as u8) as char]) } else { Seq::empty() } }
pub open spec fn nonempty(s: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> { if s.len() == 0 { None } else { Some(s) } }
// what `a-b` denotes
pub open spec fn range_of(a: Seq<char>, b: Seq<char>) -> Option<Seq<Seq<char>>> {
    match (fit(rust_uint(a, 10), u32::MAX as nat), fit(rust_uint(b, 10), u32::MAX as nat)) {
        (Some(x), Some(y)) => nonempty(dec_range(x as int, y as int)),
        _ => if a.len() == 1 && b.len() == 1 && (is_lower_letter(a[0]) && is_lower_letter(b[0]) || is_upper_letter(a[0]) && is_upper_letter(b[0])) {
            nonempty(letter_range(a[0] as int, b[0] as int))
        } else { None },
    }
}
pub open spec fn indexes_of(s: Seq<char>, r: Option<Seq<Seq<char>>>) -> bool {
    if no_char(s, '-') { r == Some(split_char(s, ',')) }
    else { forall|k: int| #[trigger] first_dash(s, k) ==> r == range_of(s.take(k), s.skip(k + 1)) }
}
pub open spec fn texts_of(v: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match v { Some(v) => Some(Seq::new(v@.len(), |i: int| v@[i]@)), None => None } }
pub proof fn lemma_no_char(s: Seq<char>, c: char)
    requires split_char(s, c) == seq![s],
    ensures no_char(s, c),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = split_char(s.drop_first(), c);
        lemma_split_len(s.drop_first(), c);
        if s[0] == c {
            assert(split_char(s, c).len() == 1 + r.len());
        } else {
            assert(split_char(s, c).len() == r.len());
            assert(split_char(s, c)[0] == seq![s[0]] + r[0]);
            assert((seq![s[0]] + r[0]).drop_first() =~= r[0]);
            assert(r =~= seq![s.drop_first()]);
            lemma_no_char(s.drop_first(), c);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != c by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } }
        }
    }
}
pub proof fn lemma_first_dash(s: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires s == a + seq!['-'] + b, no_char(a, '-'),
    ensures
        !no_char(s, '-'),
        forall|k: int| #[trigger] first_dash(s, k) ==> k == a.len() && s.take(k) == a && s.skip(k + 1) == b,
{
    assert(s[a.len() as int] == '-');
    assert forall|k: int| #[trigger] first_dash(s, k) implies k == a.len() && s.take(k) == a && s.skip(k + 1) == b by {
        if k < a.len() { assert(a[k] == s[k]); }
        if k > a.len() { assert(s.take(k)[a.len() as int] == '-'); }
        assert(s.take(k) =~= a);
        assert(s.skip(k + 1) =~= b);
    }
}
pub proof fn lemma_contains_char(s: Seq<char>, c: char)
    ensures pat_in::<char>(s, c) == !no_char(s, c),
{
    broadcast use crate::ax::vx_axioms_str;
    if pat_in(s, c) { let i = choose|i: int| 0 <= i <= s.len() && #[trigger] pat_at(s, i, c); assert(s.skip(i)[0] == s[i]); }
    if !no_char(s, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == c; assert(s.skip(i)[0] == s[i]); assert(pat_at(s, i, c)); }
}
pub assume_specification[ u8::is_ascii_lowercase ](b: &u8) -> (r: bool)
    ensures r == (97 <= *b <= 122),
;
pub assume_specification[ u8::is_ascii_uppercase ](b: &u8) -> (r: bool)
    ensures r == (65 <= *b <= 90),
;
// a text of one byte below 128 is one character
pub proof fn lemma_one_byte(s: Seq<char>)
    ensures
        s.len() == 1 && (s[0] as u32) < 128 ==> encode_utf8(s).len() == 1 && encode_utf8(s)[0] == s[0] as u8,
        encode_utf8(s).len() == 1 && encode_utf8(s)[0] < 128 ==> s.len() == 1 && s[0] == encode_utf8(s)[0] as char,
{
    broadcast use vstd::utf8::group_utf8_lib;
    if s.len() == 1 && (s[0] as u32) < 128 { assert(is_ascii_chars(s)); }
    if encode_utf8(s).len() == 1 && encode_utf8(s)[0] < 128 {
        let t = seq![encode_utf8(s)[0] as char];
        assert(is_ascii_chars(t));
        assert(encode_utf8(t) =~= encode_utf8(s));
        lemma_utf8_inj(s, t);
    }
}
