// Shared: texts as character sequences; numbers in texts; assumed contracts of std's text functions.
//@ include strings.rs
//@ module spec
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::std_specs::iter::IteratorSpec;
// ---------------------------------------------------------------- slicing by byte offsets
pub assume_specification<I: std::slice::SliceIndex<str>>[ <str as std::ops::Index<I>>::index ](s: &str, i: I) -> (r: &I::Output)
    ensures vstd::slice::SliceIndexSpec::index_postcondition(&i, s, r),
;
pub open spec fn blen(s: Seq<char>) -> nat { encode_utf8(s).len() }
pub proof fn lemma_cut(s: Seq<char>, a: int)
    requires 0 <= a <= s.len(),
    ensures
        is_char_boundary(encode_utf8(s), blen(s.take(a)) as int),
        encode_utf8(s) == encode_utf8(s.take(a)) + encode_utf8(s.skip(a)),
    decreases a,
{
    broadcast use vstd::utf8::group_utf8_lib;
    assert(s == s.take(a) + s.skip(a));
    encode_utf8_concat(s.take(a), s.skip(a));
    if a > 0 {
        lemma_cut(s.drop_first(), a - 1);
        assert(s.drop_first().take(a - 1) == s.take(a).drop_first());
        encode_utf8_first_scalar(s);
        encode_utf8_first_scalar(s.take(a));
        assert(length_of_first_scalar(encode_utf8(s)) == encode_scalar(s[0] as u32).len());
        assert(encode_utf8(s) =~= encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
        assert(pop_first_scalar(encode_utf8(s)) =~= encode_utf8(s.drop_first()));
    }
}
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}
pub broadcast proof fn lemma_utf8_inj_b(a: Seq<char>, b: Seq<char>)
    requires #[trigger] encode_utf8(a) == #[trigger] encode_utf8(b),
    ensures a == b,
{ lemma_utf8_inj(a, b); }
// cutting a text at character positions a and b is cutting its bytes at blen(take(a)) and blen(take(b))
pub proof fn lemma_sub(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures
        is_char_boundary(encode_utf8(s), blen(s.take(a)) as int),
        is_char_boundary(encode_utf8(s), blen(s.take(b)) as int),
        blen(s.take(a)) <= blen(s.take(b)) <= blen(s),
        encode_utf8(s).subrange(blen(s.take(a)) as int, blen(s.take(b)) as int) == encode_utf8(s.subrange(a, b)),
{
    lemma_cut(s, a);
    lemma_cut(s, b);
    lemma_cut(s.take(b), a);
    assert(s.take(b).take(a) == s.take(a));
    assert(s.take(b).skip(a) == s.subrange(a, b));
    assert(encode_utf8(s).subrange(blen(s.take(a)) as int, blen(s.take(b)) as int) =~= encode_utf8(s.subrange(a, b)));
}
pub proof fn lemma_blen_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f,
    ensures blen(s) == s.len(),
{
    broadcast use vstd::utf8::group_utf8_lib;
    assert(is_ascii_chars(s));
}
// the first k characters of s are ASCII: cutting k bytes off the front cuts k characters off
pub proof fn lemma_cut_front(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) as u32 <= 0x7f,
    ensures
        blen(s) >= k,
        is_char_boundary(encode_utf8(s), k),
        is_char_boundary(encode_utf8(s), blen(s) as int),
        encode_utf8(s).subrange(k, blen(s) as int) == encode_utf8(s.skip(k)),
{
    lemma_sub(s, k, s.len() as int);
    lemma_blen_ascii(s.take(k));
    assert(s.take(s.len() as int) == s);
    assert(s.subrange(k, s.len() as int) == s.skip(k));
    broadcast use vstd::utf8::group_utf8_lib;
}
// ---------------------------------------------------------------- splitting
pub open spec fn split_char(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] }
    else {
        let r = split_char(s.drop_first(), c);
        if s[0] == c { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.drop_first() }
    }
}
pub open spec fn no_char(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub proof fn lemma_split_len(s: Seq<char>, c: char)
    ensures split_char(s, c).len() >= 1,
    decreases s.len(),
{ if s.len() > 0 { lemma_split_len(s.drop_first(), c); } }
pub proof fn lemma_split_none(s: Seq<char>, c: char)
    requires no_char(s, c),
    ensures split_char(s, c) == seq![s],
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies #[trigger] s.drop_first()[i] != c by { assert(s[i + 1] != c); }
        lemma_split_none(s.drop_first(), c);
        assert(split_char(s, c) =~= seq![s]) by { assert(seq![s[0]] + s.drop_first() =~= s); }
    }
}
pub proof fn lemma_split_one(s: Seq<char>, c: char)
    requires split_char(s, c).len() == 1,
    ensures no_char(s, c),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_split_len(s.drop_first(), c);
        assert(s[0] != c);
        lemma_split_one(s.drop_first(), c);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != c by { if i > 0 { assert(s.drop_first()[i - 1] != c); } }
    }
}
pub proof fn lemma_split_first(a: Seq<char>, c: char, b: Seq<char>)
    requires no_char(a, c),
    ensures split_char(a + seq![c] + b, c) == seq![a] + split_char(b, c),
    decreases a.len(),
{
    let s = a + seq![c] + b;
    if a.len() == 0 {
        assert(s.drop_first() =~= b);
        assert(a =~= Seq::<char>::empty());
    } else {
        let a1 = a.drop_first();
        assert forall|i: int| 0 <= i < a1.len() implies #[trigger] a1[i] != c by { assert(a[i + 1] != c); }
        lemma_split_first(a1, c, b);
        assert(s.drop_first() =~= a1 + seq![c] + b);
        assert(s[0] == a[0] && a[0] != c);
        assert(seq![a[0]] + a1 =~= a);
        assert(split_char(s, c) =~= seq![a] + split_char(b, c));
    }
}
// the iterator of str::split
#[verifier::external_body]
pub struct VxSplit<'a>(std::marker::PhantomData<&'a str>);
#[verifier::external]
impl<'a> Iterator for VxSplit<'a> { type Item = &'a str; fn next(&mut self) -> Option<&'a str> { unimplemented!() } }
impl<'a> VxSplit<'a> {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures self.will_return_none() ==> r == self.remaining().len(),
    { unimplemented!() }
}
// the iterator of str::bytes
#[verifier::external_body]
pub struct VxBytes<'a>(std::marker::PhantomData<&'a str>);
#[verifier::external]
impl<'a> Iterator for VxBytes<'a> { type Item = u8; fn next(&mut self) -> Option<u8> { unimplemented!() } }
//@ module ax
use vstd::string::StringSliceAdditionalSpecFns;
// no object is larger than isize::MAX bytes
pub broadcast axiom fn ax_str_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= isize::MAX,
;
pub broadcast group vx_axioms_text { ax_str_len, ax_parse_u32, ax_parse_u64, ax_parse_bool }
//@ module spec
// ---------------------------------------------------------------- numbers in texts
pub open spec fn digit(c: char, radix: nat) -> Option<nat> {
    let v = if '0' <= c <= '9' { (c as u32 - 48) as nat }
        else if 'a' <= c <= 'z' { (c as u32 - 97 + 10) as nat }
        else if 'A' <= c <= 'Z' { (c as u32 - 65 + 10) as nat }
        else { 99nat };
    if v < radix { Some(v) } else { None }
}
// one or more digits
pub open spec fn num(s: Seq<char>, radix: nat) -> Option<nat>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else {
        match digit(s.last(), radix) {
            None => None,
            Some(d) => if s.len() == 1 { Some(d) } else {
                match num(s.drop_last(), radix) { None => None, Some(n) => Some(n * radix + d) }
            },
        }
    }
}
// what Rust's unsigned parsers read: digits, optionally after a `+`
pub open spec fn rust_uint(s: Seq<char>, radix: nat) -> Option<nat> {
    if s.len() > 0 && s[0] == '+' { num(s.drop_first(), radix) } else { num(s, radix) }
}
pub open spec fn fit(n: Option<nat>, max: nat) -> Option<nat> { if n is Some && n->0 <= max { n } else { None } }
pub uninterp spec fn parse_spec<F>(s: Seq<char>) -> Option<F>;
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>)
        ensures
            r matches Ok(v) ==> parse_spec::<Self>(s@) == Some(v),
            r is Err ==> parse_spec::<Self>(s@) is None,
    ;
}
pub assume_specification<F: std::str::FromStr>[ str::parse::<F> ](s: &str) -> (r: Result<F, F::Err>)
    ensures
        r matches Ok(v) ==> parse_spec::<F>(s@) == Some(v),
        r is Err ==> parse_spec::<F>(s@) is None,
;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseBoolError(std::str::ParseBoolError);
pub assume_specification[ u32::from_str_radix ](s: &str, radix: u32) -> (r: Result<u32, std::num::ParseIntError>)
    requires 2 <= radix <= 36,
    ensures
        r is Ok <==> fit(rust_uint(s@, radix as nat), u32::MAX as nat) is Some,
        r matches Ok(v) ==> rust_uint(s@, radix as nat) == Some(v as nat),
;
pub assume_specification[ u64::from_str_radix ](s: &str, radix: u32) -> (r: Result<u64, std::num::ParseIntError>)
    requires 2 <= radix <= 36,
    ensures
        r is Ok <==> fit(rust_uint(s@, radix as nat), u64::MAX as nat) is Some,
        r matches Ok(v) ==> rust_uint(s@, radix as nat) == Some(v as nat),
;
//@ module ax
pub broadcast axiom fn ax_parse_u32(s: Seq<char>)
    ensures #[trigger] parse_spec::<u32>(s) == (match fit(rust_uint(s, 10), u32::MAX as nat) { Some(n) => Some(n as u32), None => None }),
;
pub broadcast axiom fn ax_parse_u64(s: Seq<char>)
    ensures #[trigger] parse_spec::<u64>(s) == (match fit(rust_uint(s, 10), u64::MAX as nat) { Some(n) => Some(n as u64), None => None }),
;
pub broadcast axiom fn ax_parse_bool(s: Seq<char>)
    ensures #[trigger] parse_spec::<bool>(s) == (if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None }),
;
//@ module spec
// printing
pub open spec fn digit_char(d: nat, upper: bool) -> char {
    if d < 10 { (48 + d) as u8 as char } else if upper { (65 + d - 10) as u8 as char } else { (97 + d - 10) as u8 as char }
}
#[via_fn]
proof fn digits_dec(n: nat, radix: nat, upper: bool) {
    if radix >= 2 && n >= radix { assert(n / radix < n) by (nonlinear_arith) requires n >= radix, radix >= 2; }
}
pub open spec fn digits(n: nat, radix: nat, upper: bool) -> Seq<char>
    decreases n via digits_dec
{
    if radix < 2 || n < radix { seq![digit_char(n, upper)] }
    else { digits(n / radix, radix, upper).push(digit_char(n % radix, upper)) }
}
pub open spec fn dec(n: nat) -> Seq<char> { digits(n, 10, false) }
pub proof fn lemma_digit_char(d: nat, radix: nat, upper: bool)
    requires d < radix, radix <= 36,
    ensures digit(digit_char(d, upper), radix) == Some(d), digit_char(d, upper) as u32 <= 0x7f,
        digit_char(d, upper) != '+', digit_char(d, upper) != ':', digit_char(d, upper) != '-', digit_char(d, upper) != ']', digit_char(d, upper) != '[',
{}
pub proof fn lemma_digits(n: nat, radix: nat, upper: bool)
    requires 2 <= radix <= 36,
    ensures
        num(digits(n, radix, upper), radix) == Some(n),
        rust_uint(digits(n, radix, upper), radix) == Some(n),
        digits(n, radix, upper).len() >= 1,
        forall|i: int| 0 <= i < digits(n, radix, upper).len() ==> digit(#[trigger] digits(n, radix, upper)[i], radix) is Some,
        forall|i: int| 0 <= i < digits(n, radix, upper).len() ==> {
            let c = #[trigger] digits(n, radix, upper)[i];
            c as u32 <= 0x7f && c != '+' && c != ':' && c != '-' && c != ']' && c != '['
        },
    decreases n,
{
    if n < radix {
        lemma_digit_char(n, radix, upper);
    } else {
        assert(n / radix < n) by (nonlinear_arith) requires n >= radix, radix >= 2;
        lemma_digits(n / radix, radix, upper);
        assert(n % radix < radix) by (nonlinear_arith) requires radix >= 2;
        lemma_digit_char(n % radix, radix, upper);
        let s = digits(n, radix, upper);
        assert(s.drop_last() =~= digits(n / radix, radix, upper));
        assert((n / radix) * radix + n % radix == n) by (nonlinear_arith) requires radix >= 2;
    }
}
// `{}` of a value
pub trait Disp { spec fn disp(&self) -> Seq<char>; }
impl Disp for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for u64 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl Disp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<T: Disp + ?Sized> Disp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
#[verifier::external_body]
pub fn vx_push<T: Disp + ?Sized>(s: &mut String, v: &T)
    ensures final(s)@ == old(s)@ + v.disp(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_push_lit(s: &mut String, v: &str)
    ensures final(s)@ == old(s)@ + v@,
{ unimplemented!() }
// ---------------------------------------------------------------- other text functions
// patterns: what the function says about a text, per type of pattern
pub trait VxPat: Sized {
    spec fn front(self, s: Seq<char>) -> Option<nat>; // length of the match at the front of s
    spec fn back(self, s: Seq<char>) -> Option<nat>; // length of the match at the back of s
    spec fn split_spec(self, s: Seq<char>) -> Seq<Seq<char>>;
    spec fn replace_spec(self, s: Seq<char>, by: Seq<char>) -> Seq<char>;
}
impl VxPat for char {
    open spec fn front(self, s: Seq<char>) -> Option<nat> { if s.len() > 0 && s[0] == self { Some(1) } else { None } }
    open spec fn back(self, s: Seq<char>) -> Option<nat> { if s.len() > 0 && s.last() == self { Some(1) } else { None } }
    open spec fn split_spec(self, s: Seq<char>) -> Seq<Seq<char>> { split_char(s, self) }
    open spec fn replace_spec(self, s: Seq<char>, by: Seq<char>) -> Seq<char> { replace_all(s, seq![self], by) }
}
impl<'b> VxPat for &'b str {
    open spec fn front(self, s: Seq<char>) -> Option<nat> { if self@.is_prefix_of(s) { Some(self@.len()) } else { None } }
    open spec fn back(self, s: Seq<char>) -> Option<nat> { if self@.is_suffix_of(s) { Some(self@.len()) } else { None } }
    open spec fn split_spec(self, s: Seq<char>) -> Seq<Seq<char>> { if self@.len() == 1 { split_char(s, self@[0]) } else { arbitrary() } }
    open spec fn replace_spec(self, s: Seq<char>, by: Seq<char>) -> Seq<char> { if self@.len() > 0 { replace_all(s, self@, by) } else { arbitrary() } }
}
// every non-overlapping occurrence, from the front
pub open spec fn replace_all(s: Seq<char>, t: Seq<char>, by: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 || t.len() == 0 { s }
    else if t.is_prefix_of(s) { by + replace_all(s.skip(t.len() as int), t, by) }
    else { seq![s[0]] + replace_all(s.drop_first(), t, by) }
}
pub open spec fn lower_char(c: char) -> Seq<char> { if c as u32 <= 0x7f { seq![ascii_lower(c)] } else { lower_other(c) } }
pub open spec fn ascii_lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub uninterp spec fn lower_other(c: char) -> Seq<char>;
pub open spec fn lower(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { s } else { lower_char(s[0]) + lower(s.drop_first()) } }
pub uninterp spec fn is_ws(c: char) -> bool;
pub open spec fn trim_front(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { trim_front(s.drop_first()) } else { s } }
pub open spec fn trim_back(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && is_ws(s.last()) { trim_back(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_back(trim_front(s)) }
pub open spec fn terminated(v: Seq<Seq<char>>) -> Seq<Seq<char>> { if v.len() > 0 && v.last().len() == 0 { v.drop_last() } else { v } }
// matches at the front (back) taken away as long as there are any
pub open spec fn strip_front<P: VxPat>(s: Seq<char>, p: P) -> Seq<char>
    decreases s.len(),
{ match p.front(s) { Some(n) => if 0 < n <= s.len() { strip_front(s.skip(n as int), p) } else { s }, None => s } }
pub open spec fn strip_back<P: VxPat>(s: Seq<char>, p: P) -> Seq<char>
    decreases s.len(),
{ match p.back(s) { Some(n) => if 0 < n <= s.len() { strip_back(s.take(s.len() - n), p) } else { s }, None => s } }
pub trait StrShim {
    fn vx_ends_with<P: VxPat>(&self, p: P) -> bool;
    fn vx_split<'a, P: VxPat>(&'a self, p: P) -> VxSplit<'a>;
    fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> Option<(&'a str, &'a str)>;
    fn vx_rsplit_once<'a, P: VxPat>(&'a self, p: P) -> Option<(&'a str, &'a str)>;
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> Option<&'a str>;
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> Option<&'a str>;
    fn vx_split_terminator<'a, P: VxPat>(&'a self, p: P) -> VxSplit<'a>;
    fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> &'a str;
    fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> &'a str;
    fn vx_trim_start(&self) -> &str;
    fn vx_trim_end(&self) -> &str;
    fn vx_replace<P: VxPat>(&self, p: P, by: &str) -> String;
    fn vx_to_lowercase(&self) -> String;
    fn vx_trim(&self) -> &str;
    fn vx_bytes<'a>(&'a self) -> VxBytes<'a>;
}
impl StrShim for str {
    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == (p.back(self@) is Some),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_split<'a, P: VxPat>(&'a self, p: P) -> (r: VxSplit<'a>)
        ensures
            r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining().len() == p.split_spec(self@).len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == p.split_spec(self@)[i],
    { unimplemented!() }
    // the first / last place where a one-character separator occurs
    #[verifier::external_body]
    fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures
            r matches Some((a, b)) ==> exists|m: Seq<char>| #[trigger] p.front(m) == Some(m.len()) && self@ == a@ + m + b@ && p.split_spec(a@) == seq![a@],
            r is None ==> p.split_spec(self@) == seq![self@],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_rsplit_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures
            r matches Some((a, b)) ==> exists|m: Seq<char>| #[trigger] p.front(m) == Some(m.len()) && self@ == a@ + m + b@ && p.split_spec(b@) == seq![b@],
            r is None ==> p.split_spec(self@) == seq![self@],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures
            r is Some <==> p.front(self@) is Some,
            r matches Some(t) ==> t@ == self@.skip(p.front(self@)->0 as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures
            r is Some <==> p.back(self@) is Some,
            r matches Some(t) ==> t@ == self@.take(self@.len() - p.back(self@)->0),
    { unimplemented!() }
    // as split, but without a last empty part
    #[verifier::external_body]
    fn vx_split_terminator<'a, P: VxPat>(&'a self, p: P) -> (r: VxSplit<'a>)
        ensures
            r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining().len() == terminated(p.split_spec(self@)).len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == terminated(p.split_spec(self@))[i],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str)
        ensures r@ == strip_front(self@, p),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str)
        ensures r@ == strip_back(self@, p),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start(&self) -> (r: &str)
        ensures r@ == trim_front(self@),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end(&self) -> (r: &str)
        ensures r@ == trim_back(self@),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<P: VxPat>(&self, p: P, by: &str) -> (r: String)
        ensures r@ == p.replace_spec(self@, by@),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_lowercase(&self) -> (r: String)
        ensures r@ == lower(self@),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str)
        ensures r@ == trimmed(self@),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_bytes<'a>(&'a self) -> (r: VxBytes<'a>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == encode_utf8(self@),
    { unimplemented!() }
}
