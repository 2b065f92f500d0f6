// Shared: assumed contracts on the Rust standard library that vstd lacks (each one is trusted).
//@ module ax
pub broadcast axiom fn ax_from_identity<T>(v: T)
    ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::from_spec(v) == v,
;
pub broadcast axiom fn ax_from_identity_obeys<T>()
    ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec(),
;
pub broadcast group vx_axioms_base { ax_from_identity, ax_from_identity_obeys }
pub broadcast group vx_axioms { ax_from_identity, ax_from_identity_obeys, ax_vec_ext, ax_string_ext }
//@ module spec
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct,
    ensures r == (if a is Some { a } else { b }),
;
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    where T: std::marker::Destruct, U: std::marker::Destruct,
    ensures r == (if a is Some { b } else { None }),
;
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct,
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None }),
;
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    where T: std::marker::Destruct, U: std::marker::Destruct,
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }),
;
pub assume_specification<T>[ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => x, None => None }),
;
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None }),
;
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(v),
;
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match a { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) }),
;
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[ u64::count_ones ](x: u64) -> (r: u32)
    ensures x == u64::MAX ==> r == 64,
;
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T)
    requires false,
{ unimplemented!() }
//@ module ax
// A Vec is its elements, a String its characters (capacity is not observable here).
pub broadcast axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires #[trigger] a@ =~= #[trigger] b@,
    ensures a == b,
;
pub broadcast axiom fn ax_string_ext(a: String, b: String)
    requires #[trigger] a@ =~= #[trigger] b@,
    ensures a == b,
;
//@ module spec
// ---------------------------------------------------------------- loops over iterators
// an iterator that ends, walking over the items `full`
#[verifier::prophetic]
pub open spec fn it_on<I: Iterator>(it: &I, full: Seq<I::Item>) -> bool {
    &&& vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(it)
    &&& vstd::std_specs::iter::IteratorSpec::decrease(it) is Some
    &&& vstd::std_specs::iter::IteratorSpec::remaining(it).len() <= full.len()
    &&& vstd::std_specs::iter::IteratorSpec::remaining(it) =~= full.skip(full.len() - vstd::std_specs::iter::IteratorSpec::remaining(it).len())
}
// how many items it has handed out
#[verifier::prophetic]
pub open spec fn it_pos<I: Iterator>(it: &I, full: Seq<I::Item>) -> int { full.len() - vstd::std_specs::iter::IteratorSpec::remaining(it).len() }
pub open spec fn it_dec<I: Iterator>(it: &I) -> nat { match vstd::std_specs::iter::IteratorSpec::decrease(it) { Some(n) => n, None => 0 } }
// ---------------------------------------------------------------- lookups
// the first element of s with the property p is number i
pub open spec fn first_is<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int) -> bool {
    0 <= i < s.len() && p(s[i]) && forall|j: int| 0 <= j < i ==> !p(#[trigger] s[j])
}
pub open spec fn none_is<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> bool { forall|j: int| 0 <= j < s.len() ==> !p(#[trigger] s[j]) }
pub open spec fn found<T>(s: Seq<T>, p: spec_fn(T) -> bool, r: Option<&T>) -> bool {
    match r { Some(e) => exists|i: int| #[trigger] first_is(s, p, i) && *e == s[i], None => none_is(s, p) }
}
