// C05: looking up enumerated values and sets of them.
//@ include valid.rs
pub open spec fn ev_default() -> spec_fn(EnumeratedValue) -> bool { |v: EnumeratedValue| v.is_default == Some(true) }
pub open spec fn ev_named(n: Seq<char>) -> spec_fn(EnumeratedValue) -> bool { |v: EnumeratedValue| v.name@ == n }
pub open spec fn evs_used(u: Usage) -> spec_fn(EnumeratedValues) -> bool { |v: EnumeratedValues| evs_usage(v) == Some(u) }
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::default_value -> r
    ensures found(self.values@, ev_default(), r),
//@ find 0
    let ghost full = vx_f.remaining();
    proof { assert forall|j: int| 0 <= j < self.values@.len() implies #[trigger] self.values@[j] == *full[j] by {} }
//@ found 0
    proof { if vx_r is Some { assert(first_is(self.values@, ev_default(), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|v: &&EnumeratedValue| -> (b: bool) ensures b == ((**v).is_default == Some(true))
//@ endfn
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::get_value -> r
    ensures found(self.values@, ev_named(name@), r),
//@ find 0
    let ghost full = vx_f.remaining();
    proof { assert forall|j: int| 0 <= j < self.values@.len() implies #[trigger] self.values@[j] == *full[j] by {} }
//@ found 0
    proof { if vx_r is Some { assert(first_is(self.values@, ev_named(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|e: &&EnumeratedValue| -> (b: bool) ensures b == ((**e).name@ == name@)
//@ endfn
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::get_mut_value -> r
    ensures
        match r {
            Some(e) => exists|i: int| #[trigger] first_is(old(self).values@, ev_named(name@), i) && *e == old(self).values@[i]
                && *final(self) == (EnumeratedValues { values: final(self).values, ..*old(self) }),
            None => none_is(old(self).values@, ev_named(name@)),
        },
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost v0 = old(self).values@;
    proof { assert forall|j: int| 0 <= j < v0.len() implies #[trigger] v0[j] == *full[j] by {} }
//@ found 0
    proof { if vx_r is Some { assert(first_is(v0, ev_named(name@), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|e: &&mut EnumeratedValue| -> (b: bool) ensures b == (old(*e).name@ == name@)
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::get_enumerated_values -> r
    ensures
        1 <= self.enumerated_values@.len() <= 2 ==> found(self.enumerated_values@, evs_used(usage), r),
        !(1 <= self.enumerated_values@.len() <= 2) ==> r is None,
//@ find 0
    let ghost full = vx_f.remaining();
    proof { assert forall|j: int| 0 <= j < self.enumerated_values@.len() implies #[trigger] self.enumerated_values@[j] == *full[j] by {} }
//@ found 0
    proof { if vx_r is Some { assert(first_is(self.enumerated_values@, evs_used(usage), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|ev: &&EnumeratedValues| -> (b: bool) ensures b == (evs_usage(**ev) == Some(usage))
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::get_mut_enumerated_values -> r
    ensures
        match r {
            Some(e) => 1 <= old(self).enumerated_values@.len() <= 2
                && (exists|i: int| #[trigger] first_is(old(self).enumerated_values@, evs_used(usage), i) && *e == old(self).enumerated_values@[i])
                && *final(self) == (FieldInfo { enumerated_values: final(self).enumerated_values, ..*old(self) }),
            None => 1 <= old(self).enumerated_values@.len() <= 2 ==> none_is(old(self).enumerated_values@, evs_used(usage)),
        },
//@ find 0
    let ghost full = vx_f.remaining();
    let ghost v0 = old(self).enumerated_values@;
    proof { assert forall|j: int| 0 <= j < v0.len() implies #[trigger] v0[j] == *full[j] by {} }
//@ found 0
    proof { if vx_r is Some { assert(first_is(v0, evs_used(usage), full.len() - vx_f.remaining().len() - 1)); } }
//@ closure 0
|ev: &&mut EnumeratedValues| -> (b: bool) ensures b == (evs_usage(*old(*ev)) == Some(usage))
//@ endfn
