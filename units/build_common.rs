// What builders and modifications promise, for every element: shared parts.
//@ include valid.rs
//@ module svd
pub trait EmptyToNone: Sized {
    spec fn nonempty(self) -> Self;
    fn empty_to_none(self) -> (r: Self)
        ensures r == self.nonempty();
}
//@ module spec
//@ fn svd-rs/src/lib.rs <Option<String> as EmptyToNone>::empty_to_none as-trait -> r
//@ impltext
    open spec fn nonempty(self) -> Self { text_of(self) }
//@ endfn
//@ fn svd-rs/src/lib.rs <Option<Vec<T>> as EmptyToNone>::empty_to_none as-trait -> r
//@ impltext
    open spec fn nonempty(self) -> Self { opt_list_of(self) }
//@ endfn
pub fn vx_assign_if<T>(c: bool, p: &mut T, v: T)
    ensures *final(p) == (if c { v } else { *old(p) }),
{ if c { *p = v; } }
pub fn vx_assign_some<T>(p: &mut T, v: Option<T>)
    ensures *final(p) == or_old(v, *old(p)),
{ match v { Some(x) => { *p = x; } None => {} } }
pub open spec fn text_of(s: Option<String>) -> Option<String> { match s { Some(t) => if t@.len() == 0 { None } else { s }, None => None } }
pub open spec fn opt_list_of<T>(s: Option<Vec<T>>) -> Option<Vec<T>> { match s { Some(t) => if t@.len() == 0 { None } else { s }, None => None } }
pub open spec fn empty_vec<T>() -> Vec<T> { choose|v: Vec<T>| (#[trigger] v@).len() == 0 }
pub open spec fn list_of<T>(s: Option<Vec<T>>) -> Vec<T> { match s { Some(v) => v, None => empty_vec() } }
pub broadcast proof fn lemma_empty_vec<T>(v: Vec<T>)
    requires #[trigger] v@.len() == 0,
    ensures v == empty_vec::<T>(),
{
    broadcast use crate::ax::vx_axioms;
    assert(exists|w: Vec<T>| (#[trigger] w@).len() == 0);
    let e = empty_vec::<T>();
    assert(e@ =~= v@);
}
// an optional text is kept as it was set; an empty one may be stored as absent
pub open spec fn text_kept(x: Option<String>, set: Option<String>) -> bool { x == set || (x is None && text_of(set) is None) }
pub open spec fn opt_list_kept<T>(x: Option<Vec<T>>, set: Option<Vec<T>>) -> bool { x == set || (x is None && opt_list_of(set) is None) }
pub open spec fn list_kept<T>(x: Vec<T>, set: Option<Vec<T>>) -> bool { match set { Some(v) => x == v, None => x@.len() == 0 } }
// modifications: what is provided replaces what was there, empty text and lists clear it
pub open spec fn or_old<T>(set: Option<T>, old: T) -> T { match set { Some(v) => v, None => old } }
pub open spec fn text_mod(old: Option<String>, set: Option<String>) -> Option<String> { if set is Some { text_of(set) } else { old } }
pub open spec fn opt_list_mod<T>(old: Option<Vec<T>>, set: Option<Vec<T>>) -> Option<Vec<T>> { if set is Some { opt_list_of(set) } else { old } }
pub open spec fn no_properties() -> RegisterProperties { RegisterProperties { size: None, access: None, protection: None, reset_value: None, reset_mask: None } }
