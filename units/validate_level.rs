//@ include common.rs
//@ include std.rs
pub open spec fn weak(l: ValidateLevel) -> bool { l != ValidateLevel::Disabled }
pub open spec fn strict(l: ValidateLevel) -> bool { l == ValidateLevel::Strict }
//@ fn svd-rs/src/lib.rs ValidateLevel::is_disabled -> r
    ensures r == (self == ValidateLevel::Disabled),
//@ endfn
//@ fn svd-rs/src/lib.rs ValidateLevel::is_weak -> r
    ensures r == (self != ValidateLevel::Disabled),
//@ endfn
//@ fn svd-rs/src/lib.rs ValidateLevel::is_strict -> r
    ensures r == (self == ValidateLevel::Strict),
//@ endfn
