// Shared: the types of svd-rs, copied from /repo on every run.
//@ crate svd-rs
pub trait DefSpec: Sized { spec fn def_ok(r: Self) -> bool; }
