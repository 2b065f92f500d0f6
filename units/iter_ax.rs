// Shared: lazy iterators (map, zip, inclusive ranges).
//@ include std.rs
//@ head #![feature(step_trait)]
//@ module ax
// `Zip::next` gives nothing exactly when one of the two gives nothing: it ends with one of them
pub broadcast axiom fn ax_zip_ends<A: Iterator, B: Iterator>(z: std::iter::Zip<A, B>)
    requires #[trigger] vstd::std_specs::iter::IteratorSpec::will_return_none(&z),
    ensures ({
        let a = vstd::std_specs::iter::zip_iter_fst(z);
        let b = vstd::std_specs::iter::zip_iter_snd(z);
        let n = vstd::std_specs::iter::IteratorSpec::remaining(&z).len();
        ||| vstd::std_specs::iter::IteratorSpec::will_return_none(&a) && n == vstd::std_specs::iter::IteratorSpec::remaining(&a).len()
        ||| vstd::std_specs::iter::IteratorSpec::will_return_none(&b) && n == vstd::std_specs::iter::IteratorSpec::remaining(&b).len()
    }),
;
//@ module spec
// an iterator that gives n items, item i related to i by p
#[verifier::prophetic]
pub open spec fn yields<I: Iterator>(it: I, n: nat, p: spec_fn(int, I::Item) -> bool) -> bool {
    &&& vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it)
    &&& vstd::std_specs::iter::IteratorSpec::decrease(&it) is Some
    &&& vstd::std_specs::iter::IteratorSpec::remaining(&it).len() <= n
    &&& vstd::std_specs::iter::IteratorSpec::will_return_none(&it) ==> vstd::std_specs::iter::IteratorSpec::remaining(&it).len() == n
    &&& forall|i: int| 0 <= i < vstd::std_specs::iter::IteratorSpec::remaining(&it).len() ==> p(i, #[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&it)[i])
}
//@ module ax
// an inclusive range that starts after its end has no items
pub broadcast axiom fn ax_range_empty<A: std::iter::Step>(r: std::ops::RangeInclusive<A>)
    requires vstd::std_specs::iter::StepSpec::spec_steps_between_int(r@.start, r@.end) < 0,
    ensures (#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)).len() == 0,
;
//@ module spec
// `Iterator::map` (its own contract, usable where the closure's type has parameters)
pub fn vx_map<I: Iterator, B, F: FnMut(I::Item) -> B>(i: I, f: F) -> (r: std::iter::Map<I, F>)
    requires
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i),
        forall|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() ==> f.requires((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],)),
    ensures
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some == vstd::std_specs::iter::IteratorSpec::decrease(&i) is Some,
        vstd::std_specs::iter::IteratorSpec::remaining(&r).len() <= vstd::std_specs::iter::IteratorSpec::remaining(&i).len(),
        vstd::std_specs::iter::IteratorSpec::will_return_none(&r) ==> vstd::std_specs::iter::IteratorSpec::will_return_none(&i) && vstd::std_specs::iter::IteratorSpec::remaining(&r).len() == vstd::std_specs::iter::IteratorSpec::remaining(&i).len(),
        forall|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&r).len() ==> f.ensures((vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],), #[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)[k]),
{
    i.map(f)
}
// `Iterator::filter`: the items with the property, in order
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(F)]
pub struct VxFilter<I, F>(I, F);
#[verifier::external]
impl<I: Iterator, F> Iterator for VxFilter<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> (r: VxFilter<I, F>)
    requires
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i),
        vstd::std_specs::iter::IteratorSpec::decrease(&i) is Some,
        forall|x: &I::Item| #[trigger] f.requires((x,)),
    ensures
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        vstd::std_specs::iter::IteratorSpec::will_return_none(&r) ==> vstd::std_specs::iter::IteratorSpec::will_return_none(&i)
            && forall|p: spec_fn(I::Item) -> bool| (forall|x: I::Item, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x))
                ==> vstd::std_specs::iter::IteratorSpec::remaining(&r) == #[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i).filter(p),
{ unimplemented!() }
// `Iterator::chain`: first the one, then the other
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct VxChain<A, B>(A, B);
#[verifier::external]
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for VxChain<A, B> { type Item = A::Item; fn next(&mut self) -> Option<A::Item> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_chain<T, A: Iterator<Item = T>>(a: A, b: Vec<T>) -> (r: VxChain<A, std::vec::IntoIter<T>>)
    requires
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&a),
        vstd::std_specs::iter::IteratorSpec::decrease(&a) is Some,
    ensures
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        vstd::std_specs::iter::IteratorSpec::will_return_none(&r) ==> vstd::std_specs::iter::IteratorSpec::will_return_none(&a)
            && vstd::std_specs::iter::IteratorSpec::remaining(&r) == vstd::std_specs::iter::IteratorSpec::remaining(&a) + b@,
        vstd::std_specs::iter::IteratorSpec::remaining(&r).is_prefix_of(vstd::std_specs::iter::IteratorSpec::remaining(&a) + b@),
{ unimplemented!() }
// (marks what `vx_collect` gave, for the solver)
pub closed spec fn collected<T>(s: Seq<T>) -> bool { true }
// `i.map(f).collect()` into a `Result`: what f gives for the items, up to the first error
pub fn vx_collect<T, E, I: Iterator, F: Fn(I::Item) -> Result<T, E>>(i: I, f: F) -> (r: Result<Vec<T>, E>)
    requires
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i),
        vstd::std_specs::iter::IteratorSpec::decrease(&i) is Some,
        forall|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() ==> f.requires((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],)),
    ensures
        r matches Ok(v) ==> vstd::std_specs::iter::IteratorSpec::will_return_none(&i)
            && collected(v@)
            && vstd::std_specs::iter::IteratorSpec::remaining(&i).len() == v@.len()
            && forall|k: int| #![trigger vstd::std_specs::iter::IteratorSpec::remaining(&i)[k]] #![trigger v@[k]]
                0 <= k < v@.len() ==> f.ensures((vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],), Result::<T, E>::Ok(v@[k])),
        r matches Err(e) ==> exists|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len()
            && f.ensures((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],), Result::<T, E>::Err(e)),
{
    let ghost full = vstd::std_specs::iter::IteratorSpec::remaining(&i);
    let mut it = i;
    let mut v: Vec<T> = Vec::new();
    loop
        invariant
            it_on(&it, full), it_pos(&it, full) == v@.len(),
            full == vstd::std_specs::iter::IteratorSpec::remaining(&i),
            vstd::std_specs::iter::IteratorSpec::will_return_none(&it) ==> vstd::std_specs::iter::IteratorSpec::will_return_none(&i),
            forall|k: int| 0 <= k < full.len() ==> f.requires((#[trigger] full[k],)),
            forall|k: int| #![trigger full[k]] #![trigger v@[k]] 0 <= k < v@.len() ==> f.ensures((full[k],), Result::<T, E>::Ok(v@[k])),
        decreases it_dec(&it)
    {
        let ghost n = v@.len() as int;
        match it.next() {
            Some(x) => {
                assert(full[n] == x);
                match f(x) { Ok(y) => v.push(y), Err(e) => { assert(f.ensures((full[n],), Result::<T, E>::Err(e))); return Err(e); } }
            }
            None => return Ok(v),
        }
    }
}
