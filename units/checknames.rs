// C06: name checks.  The regular expressions themselves are decided by tools/patterns.py: the
// contracts of vx_pattern_* below are what it proves about the literals in /repo (SMT, strings).
//@ include text.rs
//@ include common.rs
//@ include validate_level.rs
pub open spec fn word(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' }
pub open spec fn words(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> word(#[trigger] s[i]) }
pub open spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && words(s) && !('0' <= s[0] <= '9') }
pub open spec fn plain_name(s: Seq<char>) -> bool { words(s) }
pub open spec fn dim_name(s: Seq<char>) -> bool {
    ||| ident(s)
    ||| exists|t: Seq<char>| #[trigger] ident(t) && s == t + "[%s]"@
    ||| exists|t: Seq<char>, u: Seq<char>| #[trigger] ident(t) && #[trigger] words(u) && s == t + "%s"@ + u
    ||| s == "%s"@
    ||| exists|t: Seq<char>| #[trigger] ident(t) && s == "%s"@ + t
}
pub open spec fn derived_name(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < split_char(s, '.').len() ==> dim_name(#[trigger] split_char(s, '.')[i])
}
#[verifier::external_body]
pub fn vx_pattern_check_name(s: &str) -> (r: bool)
    ensures r == plain_name(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_pattern_check_dimable_name(s: &str) -> (r: bool)
    ensures r == dim_name(s@),
{ unimplemented!() }
pub open spec fn name_err(e: NameError, name: Seq<char>, tag: Seq<char>) -> bool {
    e matches NameError::Invalid(n, t) && n@ == name && t@ == tag
}
//@ fn svd-rs/src/lib.rs check_name -> r
    ensures
        r is Ok <==> plain_name(name@),
        r matches Err(e) ==> name_err(e, name@, tag@),
//@ endfn
//@ fn svd-rs/src/lib.rs check_dimable_name -> r
    ensures
        r is Ok <==> dim_name(name@),
        r matches Err(e) ==> name_err(e, name@, tag@),
//@ endfn
//@ fn svd-rs/src/lib.rs check_derived_name -> r
    ensures
        r is Ok <==> derived_name(name@),
        r matches Err(e) ==> exists|i: int| 0 <= i < split_char(name@, '.').len() && !dim_name(#[trigger] split_char(name@, '.')[i]) && name_err(e, split_char(name@, '.')[i], tag@),
//@ beforeloop 0
    let ghost parts = split_char(name@, '.');
    let ghost full = it.remaining();
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        forall|i: int| 0 <= i < it_pos(&it, full) ==> dim_name(#[trigger] parts[i]),
    invariant
        parts == split_char(name@, '.'), full.len() == parts.len(),
        forall|i: int| 0 <= i < full.len() ==> (#[trigger] full[i])@ == parts[i],
    ensures
        forall|i: int| 0 <= i < parts.len() ==> dim_name(#[trigger] parts[i]),
    decreases it_dec(&it)
//@ loopstart 0
    proof { assert(x@ == parts[it_pos(&it, full) - 1]); }
//@ endfn
