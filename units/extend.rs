// Shared: what `Vec::extend` adds.
//@ module spec
// `Vec::extend` adds the items at the end
pub uninterp spec fn items_of<T, I>(i: I) -> Seq<T>;
// .. after asking for more until there are none
#[verifier::prophetic]
pub uninterp spec fn used_up<I>(i: I) -> bool;
pub assume_specification<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>>[ <Vec<T, A> as Extend<T>>::extend ](v: &mut Vec<T, A>, i: I)
    ensures final(v)@ == old(v)@ + items_of::<T, I>(i), used_up::<I>(i),
;
