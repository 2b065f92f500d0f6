// Shared: MaybeArray and its dereference to the element's own data.
//@ include common.rs
//@ module spec
pub open spec fn info_of<T>(m: MaybeArray<T>) -> T { match m { MaybeArray::Single(i) => i, MaybeArray::Array(i, _) => i } }
// the same, with other data
pub open spec fn with_info<T>(m: MaybeArray<T>, n: T) -> MaybeArray<T> { match m { MaybeArray::Single(_) => MaybeArray::Single(n), MaybeArray::Array(_, d) => MaybeArray::Array(n, d) } }
//@ module svd::array
use core::ops::{Deref, DerefMut};
//@ fn svd-rs/src/array.rs <MaybeArray<T> as Deref>::deref as-trait -> r
    ensures *r == info_of(*self),
//@ endfn
//@ fn svd-rs/src/array.rs <MaybeArray<T> as DerefMut>::deref_mut as-trait -> r
    ensures *r == info_of(*old(self)), *final(self) == with_info(*old(self), *final(r)),
//@ endfn
