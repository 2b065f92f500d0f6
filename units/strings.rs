// Shared: assumed contracts on str.
//@ include std.rs
//@ head #![feature(pattern)]
#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: std::str::pattern::Pattern; }
// `p` as a predicate on "matches at the front of s", one definition per pattern type in use
pub uninterp spec fn pat_len<P>(s: Seq<char>, p: P) -> Option<nat>;
pub open spec fn pat_at<P>(s: Seq<char>, i: int, p: P) -> bool { 0 <= i <= s.len() && pat_len(s.skip(i), p) is Some }
pub open spec fn pat_in<P>(s: Seq<char>, p: P) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] pat_at(s, i, p) }
pub open spec fn occurs(s: Seq<char>, t: Seq<char>, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
pub open spec fn contains_text(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| #[trigger] occurs(s, t, i) }
//@ module ax
pub broadcast axiom fn ax_pat_str(s: Seq<char>, p: &str)
    ensures #[trigger] pat_len::<&str>(s, p) == (if p@.is_prefix_of(s) { Some(p@.len()) } else { None }),
;
pub broadcast axiom fn ax_pat_char(s: Seq<char>, p: char)
    ensures #[trigger] pat_len::<char>(s, p) == (if s.len() > 0 && s[0] == p { Some(1nat) } else { None }),
;
pub broadcast group vx_axioms_str { ax_pat_str, ax_pat_char }
//@ module spec
pub assume_specification<P: std::str::pattern::Pattern>[ str::starts_with ](s: &str, p: P) -> (r: bool)
    ensures r == (pat_len(s@, p) is Some),
;
pub assume_specification<P: std::str::pattern::Pattern>[ str::contains ](s: &str, p: P) -> (r: bool)
    ensures r == pat_in(s@, p),
;
pub assume_specification<'b>[ <String as PartialEq<&str>>::eq ](a: &String, b: &&str) -> (r: bool)
    ensures r == (a@ == (*b)@),
;
pub assume_specification[ <String as PartialEq<str>>::eq ](a: &String, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
;
pub proof fn lemma_pat_in_str(s: Seq<char>, p: &str)
    ensures pat_in(s, p) == contains_text(s, p@),
{
    broadcast use crate::ax::vx_axioms_str;
    if pat_in(s, p) {
        let i = choose|i: int| 0 <= i <= s.len() && #[trigger] pat_at(s, i, p);
        assert(s.skip(i).subrange(0, p@.len() as int) =~= s.subrange(i, i + p@.len()));
        assert(occurs(s, p@, i));
    }
    if contains_text(s, p@) {
        let i = choose|i: int| #[trigger] occurs(s, p@, i);
        assert(s.skip(i).subrange(0, p@.len() as int) =~= s.subrange(i, i + p@.len()));
        assert(pat_at(s, i, p));
    }
}
