// What each element's own validation accepts, and the validate functions of svd-rs.
//@ include checknames.rs
//@ include registerproperties.rs
//@ include array.rs
pub assume_specification[ u64::pow ](b: u64, e: u32) -> (r: u64)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= u64::MAX,
    ensures r == vstd::arithmetic::power::pow(b as int, e as nat),
;
pub proof fn lemma_pow_is_pow2(w: nat)
    ensures
        vstd::arithmetic::power::pow(2, w) == vstd::arithmetic::power2::pow2(w),
        w < 64 ==> vstd::arithmetic::power2::pow2(w) <= 0x8000_0000_0000_0000,
{
    vstd::arithmetic::power2::lemma_pow2(w);
    if w < 64 {
        vstd::arithmetic::power2::lemma2_to64_rest();
        vstd::arithmetic::power2::lemma2_to64();
        if w < 63 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(w, 63); }
    }
}
// ---------------------------------------------------------------- names of an element
pub open spec fn bad_name(r: Result<(), SvdError>, name: Seq<char>, ok: bool) -> bool {
    !ok && (r matches Err(SvdError::Name(NameError::Invalid(n, _))) && n@ == name)
}
pub open spec fn bad_derived(r: Result<(), SvdError>, name: Seq<char>) -> bool {
    r matches Err(SvdError::Name(NameError::Invalid(n, _))) && exists|i: int| 0 <= i < split_char(name, '.').len() && !dim_name(#[trigger] split_char(name, '.')[i]) && n@ == split_char(name, '.')[i]
}
pub open spec fn is_build_err(r: Result<(), SvdError>) -> bool { r matches Err(SvdError::Build(_)) }
pub open spec fn is_name_err(r: Result<(), SvdError>) -> bool { r matches Err(SvdError::Name(_)) }
// the outcome of a validation: Ok exactly when everything is fine, a name error only for a bad
// name, and for a bad name when nothing else is wrong
pub open spec fn outcome(r: Result<(), SvdError>, names: bool, rest: bool, bad: bool) -> bool {
    &&& r is Ok <==> names && rest
    &&& is_name_err(r) ==> bad
    &&& !is_build_err(r)
    &&& !names && rest ==> is_name_err(r)
}
// ---------------------------------------------------------------- enumerated values
pub open spec fn ev_names(e: EnumeratedValue, lvl: ValidateLevel) -> bool { strict(lvl) ==> plain_name(e.name@) }
pub open spec fn ev_rest(e: EnumeratedValue, lvl: ValidateLevel) -> bool {
    weak(lvl) ==> {
        &&& e.value is Some || e.is_default == Some(true)
        &&& strict(lvl) ==> !(e.value is Some && e.is_default == Some(true))
    }
}
pub open spec fn ev_ok(e: EnumeratedValue, lvl: ValidateLevel) -> bool { ev_names(e, lvl) && ev_rest(e, lvl) }
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValue::is_default -> r
    ensures r == (self.is_default == Some(true)),
//@ endfn
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValue::validate -> r
    ensures outcome(r, ev_names(*self, lvl), ev_rest(*self, lvl), bad_name(r, self.name@, plain_name(self.name@))),
//@ endfn
// a value that is stated lies in the range
pub open spec fn ev_in(e: EnumeratedValue, a: u64, b: u64) -> bool { e.value matches Some(v) ==> a <= v < b }
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValue::check_range -> r
    ensures r is Ok <==> ev_in(*self, range.start, range.end), !is_name_err(r), !is_build_err(r),
//@ endfn
pub open spec fn evs_names(e: EnumeratedValues, lvl: ValidateLevel) -> bool {
    strict(lvl) ==> (e.name matches Some(n) ==> plain_name(n@)) && (e.derived_from matches Some(d) ==> derived_name(d@))
}
pub open spec fn evs_rest(e: EnumeratedValues, lvl: ValidateLevel) -> bool { weak(lvl) ==> e.derived_from is Some || e.values@.len() > 0 }
pub open spec fn evs_ok(e: EnumeratedValues, lvl: ValidateLevel) -> bool { evs_names(e, lvl) && evs_rest(e, lvl) }
pub open spec fn opt_bad_name(r: Result<(), SvdError>, n: Option<String>) -> bool { n matches Some(n) && bad_name(r, n@, plain_name(n@)) }
pub open spec fn opt_bad_dim(r: Result<(), SvdError>, n: Option<String>) -> bool { n matches Some(n) && bad_name(r, n@, dim_name(n@)) }
pub open spec fn opt_bad_derived(r: Result<(), SvdError>, n: Option<String>) -> bool { n matches Some(n) && bad_derived(r, n@) }
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::validate -> r
    ensures outcome(r, evs_names(*self, lvl), evs_rest(*self, lvl), opt_bad_name(r, self.name) || opt_bad_derived(r, self.derived_from)),
//@ endfn
pub open spec fn evs_in(e: EnumeratedValues, a: u64, b: u64) -> bool { forall|i: int| 0 <= i < e.values@.len() ==> ev_in(#[trigger] e.values@[i], a, b) }
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::check_range -> r
    ensures r is Ok <==> evs_in(*self, range.start, range.end), !is_name_err(r), !is_build_err(r),
//@ beforeloop 0
    let ghost full = it.remaining();
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        forall|i: int| 0 <= i < it_pos(&it, full) ==> ev_in(#[trigger] self.values@[i], range.start, range.end),
    invariant
        full.len() == self.values@.len(),
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == self.values@[i],
    ensures
        forall|i: int| 0 <= i < self.values@.len() ==> ev_in(#[trigger] self.values@[i], range.start, range.end),
    decreases it_dec(&it)
//@ loopstart 0
    proof { assert(*v == self.values@[it_pos(&it, full) - 1]); }
//@ endfn
//@ fn svd-rs/src/usage.rs <Usage as Default>::default as-trait -> r
    ensures r == Usage::ReadWrite,
//@ endfn
// the usage in effect: read-write when unspecified, undetermined when derived
pub open spec fn evs_usage(e: EnumeratedValues) -> Option<Usage> {
    if e.derived_from is Some { None } else if e.usage is Some { e.usage } else { Some(Usage::ReadWrite) }
}
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::usage -> r
    ensures r == evs_usage(*self),
//@ endfn
// ---------------------------------------------------------------- fields
pub open spec fn wc_in(w: WriteConstraintRange, a: u64, b: u64) -> bool { w.min <= w.max && a <= w.min < b && a <= w.max < b }
//@ fn svd-rs/src/writeconstraint.rs WriteConstraintRange::check_range -> r
    ensures r is Ok <==> wc_in(*self, range.start, range.end), !is_name_err(r), !is_build_err(r),
//@ endfn
pub open spec fn for_read(u: Option<Usage>) -> bool { u is None || u == Some(Usage::Read) }
pub open spec fn for_write(u: Option<Usage>) -> bool { u is None || u == Some(Usage::Write) }
// none, one, or two sets that can serve as one for reading and one for writing
pub open spec fn evs_combination(s: Seq<EnumeratedValues>) -> bool {
    ||| s.len() <= 1
    ||| s.len() == 2 && for_read(evs_usage(s[0])) && for_write(evs_usage(s[1]))
    ||| s.len() == 2 && for_read(evs_usage(s[1])) && for_write(evs_usage(s[0]))
}
pub open spec fn field_names(f: FieldInfo, lvl: ValidateLevel) -> bool {
    strict(lvl) ==> dim_name(f.name@) && (f.derived_from matches Some(d) ==> derived_name(d@))
}
pub open spec fn field_rest(f: FieldInfo, lvl: ValidateLevel) -> bool {
    weak(lvl) ==> {
        let w = f.bit_range.width;
        let top = vstd::arithmetic::power2::pow2(w as nat) as u64;
        &&& w > 0
        &&& w < 64 ==> forall|i: int| 0 <= i < f.enumerated_values@.len() ==> evs_in(#[trigger] f.enumerated_values@[i], 0, top)
        &&& w < 64 ==> (f.write_constraint matches Some(WriteConstraint::Range(c)) ==> wc_in(c, 0, top))
        &&& strict(lvl) ==> evs_combination(f.enumerated_values@)
    }
}
pub open spec fn field_ok(f: FieldInfo, lvl: ValidateLevel) -> bool { field_names(f, lvl) && field_rest(f, lvl) }
//@ fn svd-rs/src/field.rs FieldInfo::validate -> r
    ensures outcome(r, field_names(*self, lvl), field_rest(*self, lvl), bad_name(r, self.name@, dim_name(self.name@)) || opt_bad_derived(r, self.derived_from)),
//@ start
    proof { lemma_pow_is_pow2(self.bit_range.width as nat); }
//@ beforeloop 0
    let ghost full = it.remaining();
    let ghost top = vstd::arithmetic::power2::pow2(self.bit_range.width as nat) as u64;
//@ loop 0 desugar iter it
    invariant_except_break
        it_on(&it, full),
        forall|i: int| 0 <= i < it_pos(&it, full) ==> evs_in(#[trigger] self.enumerated_values@[i], 0, top),
    invariant
        weak(lvl), 0 < self.bit_range.width < 64, field_names(*self, lvl),
        top as int == vstd::arithmetic::power::pow(2, self.bit_range.width as nat) == vstd::arithmetic::power2::pow2(self.bit_range.width as nat),
        full.len() == self.enumerated_values@.len(),
        forall|i: int| 0 <= i < full.len() ==> *(#[trigger] full[i]) == self.enumerated_values@[i],
    ensures
        forall|i: int| 0 <= i < self.enumerated_values@.len() ==> evs_in(#[trigger] self.enumerated_values@[i], 0, top),
    decreases it_dec(&it)
//@ loopstart 0
    proof { assert(*ev == self.enumerated_values@[it_pos(&it, full) - 1]); }
//@ endfn
// ---------------------------------------------------------------- registers
pub open spec fn reg_names(x: RegisterInfo, lvl: ValidateLevel) -> bool {
    strict(lvl) ==> {
        &&& dim_name(x.name@)
        &&& x.alternate_group matches Some(n) ==> plain_name(n@)
        &&& x.alternate_register matches Some(n) ==> dim_name(n@)
        &&& x.derived_from matches Some(d) ==> derived_name(d@)
    }
}
pub open spec fn reg_rest(x: RegisterInfo, lvl: ValidateLevel) -> bool {
    strict(lvl) ==> x.derived_from is Some || (x.fields matches Some(f) ==> f@.len() > 0)
}
pub open spec fn reg_ok(x: RegisterInfo, lvl: ValidateLevel) -> bool { reg_names(x, lvl) && reg_rest(x, lvl) }
//@ fn svd-rs/src/register.rs RegisterInfo::validate -> r
    ensures outcome(r, reg_names(*self, lvl), reg_rest(*self, lvl), bad_name(r, self.name@, dim_name(self.name@)) || opt_bad_name(r, self.alternate_group)
        || opt_bad_dim(r, self.alternate_register) || opt_bad_derived(r, self.derived_from)),
//@ endfn
// ---------------------------------------------------------------- clusters, peripherals, devices
pub open spec fn cl_names(x: ClusterInfo, lvl: ValidateLevel) -> bool {
    strict(lvl) ==> dim_name(x.name@) && (x.derived_from matches Some(d) ==> derived_name(d@))
}
pub open spec fn cl_rest(x: ClusterInfo, lvl: ValidateLevel) -> bool { strict(lvl) ==> x.derived_from is Some || x.children@.len() > 0 }
pub open spec fn cl_ok(x: ClusterInfo, lvl: ValidateLevel) -> bool { cl_names(x, lvl) && cl_rest(x, lvl) }
//@ fn svd-rs/src/cluster.rs ClusterInfo::validate -> r
    ensures outcome(r, cl_names(*self, lvl), cl_rest(*self, lvl), bad_name(r, self.name@, dim_name(self.name@)) || opt_bad_derived(r, self.derived_from)),
//@ endfn
pub open spec fn per_names(x: PeripheralInfo, lvl: ValidateLevel) -> bool {
    strict(lvl) ==> dim_name(x.name@) && (x.derived_from matches Some(d) ==> dim_name(d@))
}
pub open spec fn per_rest(x: PeripheralInfo, lvl: ValidateLevel) -> bool {
    strict(lvl) ==> x.derived_from is Some || (x.registers matches Some(f) ==> f@.len() > 0)
}
pub open spec fn per_ok(x: PeripheralInfo, lvl: ValidateLevel) -> bool { per_names(x, lvl) && per_rest(x, lvl) }
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::validate -> r
    ensures outcome(r, per_names(*self, lvl), per_rest(*self, lvl), bad_name(r, self.name@, dim_name(self.name@)) || opt_bad_dim(r, self.derived_from)),
//@ endfn
pub open spec fn dev_ok(x: Device, lvl: ValidateLevel) -> bool { weak(lvl) ==> x.peripherals@.len() > 0 }
//@ fn svd-rs/src/device.rs Device::validate -> r
    ensures r is Ok <==> dev_ok(*self, lvl), !is_name_err(r), !is_build_err(r),
//@ endfn
//@ fn svd-rs/src/cpu.rs Cpu::validate -> r
    ensures r is Ok,
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlock::validate -> r
    ensures r is Ok,
//@ endfn
//@ fn svd-rs/src/interrupt.rs Interrupt::validate -> r
    ensures r is Ok,
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElement::validate -> r
    ensures r is Ok,
//@ endfn
