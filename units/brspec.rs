// Shared: what a bit range text denotes.
//@ include text.rs
//@ module spec
// non-empty and within 32-bit bit positions
pub open spec fn br_ok(b: BitRange) -> bool { b.width >= 1 && b.offset + b.width <= 0x1_0000_0000 }
pub open spec fn br_text(msb: nat, lsb: nat) -> Seq<char> { "["@ + dec(msb) + ":"@ + dec(lsb) + "]"@ }
// the pair of numbers a `[a:b]` text denotes
pub open spec fn br_pair(s: Seq<char>) -> Option<(u32, u32)> {
    if s.len() >= 2 && s[0] == '[' && s.last() == ']' {
        let p = split_char(s.subrange(1, s.len() - 1), ':');
        if p.len() == 2 && parse_spec::<u32>(p[0]) is Some && parse_spec::<u32>(p[1]) is Some {
            Some((parse_spec::<u32>(p[0])->0, parse_spec::<u32>(p[1])->0))
        } else { None }
    } else { None }
}
// the bits msb..=lsb, when there are any and their number fits
pub open spec fn br_span(msb: u32, lsb: u32, t: BitRangeType) -> Option<BitRange> {
    if msb >= lsb && msb - lsb + 1 <= u32::MAX { Some(BitRange { offset: lsb, width: (msb - lsb + 1) as u32, range_type: t }) } else { None }
}
pub open spec fn br_read(s: Seq<char>) -> Option<BitRange> {
    match br_pair(s) { Some((m, l)) => br_span(m, l, BitRangeType::BitRange), None => None }
}
pub proof fn lemma_br_slice(s: Seq<char>)
    requires s.len() >= 2, s[0] == '[', s.last() == ']',
    ensures
        blen(s) >= 2,
        is_char_boundary(encode_utf8(s), 1),
        is_char_boundary(encode_utf8(s), blen(s) - 1),
        encode_utf8(s).subrange(1, blen(s) - 1) == encode_utf8(s.subrange(1, s.len() - 1)),
{
    lemma_sub(s, 1, s.len() - 1);
    lemma_cut(s, s.len() - 1);
    lemma_blen_ascii(s.take(1));
    lemma_blen_ascii(s.skip(s.len() - 1));
    lemma_sub(s, 1, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_num_colon(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] == ':',
    ensures num(s, 10) is None,
    decreases s.len(),
{
    if i < s.len() - 1 { lemma_num_colon(s.drop_last(), i); }
}
// text in two parts at the first colon
pub proof fn lemma_br_once(s: Seq<char>, a: Seq<char>, m: Seq<char>, b: Seq<char>)
    requires s == a + m + b, m.len() == 1, m[0] == ':', split_char(a, ':') == seq![a],
    ensures
        split_char(s, ':') == seq![a] + split_char(b, ':'),
        parse_spec::<u32>(b) is Some ==> split_char(b, ':') == seq![b],
        split_char(b, ':').len() == 1 ==> split_char(b, ':') == seq![b],
{
    broadcast use crate::ax::vx_axioms_text;
    assert(m =~= seq![':']);
    lemma_split_one(a, ':');
    lemma_split_first(a, ':', b);
    if parse_spec::<u32>(b) is Some {
        assert(rust_uint(b, 10) is Some);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != ':' by {
            if b[i] == ':' {
                if b[0] == '+' { assert(i > 0 && b.drop_first()[i - 1] == ':'); lemma_num_colon(b.drop_first(), i - 1); } else { lemma_num_colon(b, i); }
            }
        }
        lemma_split_none(b, ':');
    }
    if split_char(b, ':').len() == 1 { lemma_split_one(b, ':'); lemma_split_none(b, ':'); }
}
// printing and reading back
pub proof fn lemma_br_round(b: BitRange)
    requires br_ok(b),
    ensures
        br_read(br_text((b.offset + b.width - 1) as nat, b.offset as nat))
            == Some(BitRange { offset: b.offset, width: b.width, range_type: BitRangeType::BitRange }),
{
    broadcast use crate::ax::vx_axioms_text;
    let m = (b.offset + b.width - 1) as nat;
    let l = b.offset as nat;
    lemma_digits(m, 10, false);
    lemma_digits(l, 10, false);
    reveal_strlit("["); reveal_strlit(":"); reveal_strlit("]");
    let s = br_text(m, l);
    assert(s.subrange(1, s.len() - 1) =~= dec(m) + seq![':'] + dec(l));
    lemma_split_first(dec(m), ':', dec(l));
    lemma_split_none(dec(l), ':');
}
