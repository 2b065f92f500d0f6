// C19: building elements.
//@ include build_common.rs
//@ include convert.rs
// ---------------------------------------------------------------- AddressBlock
// the mandatory properties are there
pub open spec fn ab_complete(b: AddressBlockBuilder, lvl: ValidateLevel) -> bool { b.offset is Some && b.size is Some && b.usage is Some }
pub open spec fn ab_missing(b: AddressBlockBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.offset is Some) && name == "offset"@) || (!(b.size is Some) && name == "size"@) || (!(b.usage is Some) && name == "usage"@) }
// x has the values that were set
pub open spec fn ab_stores(x: AddressBlock, b: AddressBlockBuilder) -> bool {
    &&& b.offset == Some(x.offset)
    &&& b.size == Some(x.size)
    &&& b.usage == Some(x.usage)
    &&& x.protection == b.protection
}
//@ fn svd-rs/src/addressblock.rs <AddressBlockBuilder as From<AddressBlock>>::from -> r
    ensures r == (AddressBlockBuilder { offset: Some(d.offset), size: Some(d.size), usage: Some(d.usage), protection: d.protection, }),
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlockBuilder::offset -> r
    ensures r == (AddressBlockBuilder { offset: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlockBuilder::size -> r
    ensures r == (AddressBlockBuilder { size: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlockBuilder::usage -> r
    ensures r == (AddressBlockBuilder { usage: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlockBuilder::protection -> r
    ensures r == (AddressBlockBuilder { protection: value, ..self }),
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlock::builder -> r
    ensures r.offset is None, r.size is None, r.usage is None, r.protection is None,
//@ endfn
//@ fn svd-rs/src/addressblock.rs AddressBlockBuilder::build -> r
    ensures
        r matches Ok(x) ==> ab_complete(self, lvl) && ab_stores(x, self),
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> ab_missing(self, lvl, n@),
        !ab_complete(self, lvl) ==> r matches Err(SvdError::Build(_)),
        ab_complete(self, lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- Interrupt
// the mandatory properties are there
pub open spec fn int_complete(b: InterruptBuilder, lvl: ValidateLevel) -> bool { b.name is Some && b.value is Some }
pub open spec fn int_missing(b: InterruptBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) || (!(b.value is Some) && name == "value"@) }
// x has the values that were set
pub open spec fn int_stores(x: Interrupt, b: InterruptBuilder) -> bool {
    &&& b.name == Some(x.name)
    &&& text_kept(x.description, b.description)
    &&& b.value == Some(x.value)
}
//@ fn svd-rs/src/interrupt.rs <InterruptBuilder as From<Interrupt>>::from -> r
    ensures r == (InterruptBuilder { name: Some(d.name), description: d.description, value: Some(d.value), }),
//@ endfn
//@ fn svd-rs/src/interrupt.rs InterruptBuilder::name -> r
    ensures r == (InterruptBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/interrupt.rs InterruptBuilder::description -> r
    ensures r == (InterruptBuilder { description: value, ..self }),
//@ endfn
//@ fn svd-rs/src/interrupt.rs InterruptBuilder::value -> r
    ensures r == (InterruptBuilder { value: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/interrupt.rs Interrupt::builder -> r
    ensures r.name is None, r.description is None, r.value is None,
//@ endfn
//@ fn svd-rs/src/interrupt.rs InterruptBuilder::build -> r
    ensures
        r matches Ok(x) ==> int_complete(self, lvl) && int_stores(x, self),
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> int_missing(self, lvl, n@),
        !int_complete(self, lvl) ==> r matches Err(SvdError::Build(_)),
        int_complete(self, lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- Cpu
// the mandatory properties are there
pub open spec fn cpu_complete(b: CpuBuilder, lvl: ValidateLevel) -> bool { b.name is Some && b.revision is Some && b.endian is Some && b.mpu_present is Some && b.fpu_present is Some && b.nvic_priority_bits is Some && b.has_vendor_systick is Some }
pub open spec fn cpu_missing(b: CpuBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) || (!(b.revision is Some) && name == "revision"@) || (!(b.endian is Some) && name == "endian"@) || (!(b.mpu_present is Some) && name == "mpu_present"@) || (!(b.fpu_present is Some) && name == "fpu_present"@) || (!(b.nvic_priority_bits is Some) && name == "nvic_priority_bits"@) || (!(b.has_vendor_systick is Some) && name == "has_vendor_systick"@) }
// x has the values that were set
pub open spec fn cpu_stores(x: Cpu, b: CpuBuilder) -> bool {
    &&& b.name == Some(x.name)
    &&& b.revision == Some(x.revision)
    &&& b.endian == Some(x.endian)
    &&& b.mpu_present == Some(x.mpu_present)
    &&& b.fpu_present == Some(x.fpu_present)
    &&& x.fpu_double_precision == b.fpu_double_precision
    &&& x.dsp_present == b.dsp_present
    &&& x.icache_present == b.icache_present
    &&& x.dcache_present == b.dcache_present
    &&& x.itcm_present == b.itcm_present
    &&& x.dtcm_present == b.dtcm_present
    &&& x.vtor_present == b.vtor_present
    &&& b.nvic_priority_bits == Some(x.nvic_priority_bits)
    &&& b.has_vendor_systick == Some(x.has_vendor_systick)
    &&& x.device_num_interrupts == b.device_num_interrupts
    &&& x.sau_num_regions == b.sau_num_regions
}
//@ fn svd-rs/src/cpu.rs <CpuBuilder as From<Cpu>>::from -> r
    ensures r == (CpuBuilder { name: Some(c.name), revision: Some(c.revision), endian: Some(c.endian), mpu_present: Some(c.mpu_present), fpu_present: Some(c.fpu_present), fpu_double_precision: c.fpu_double_precision, dsp_present: c.dsp_present, icache_present: c.icache_present, dcache_present: c.dcache_present, itcm_present: c.itcm_present, dtcm_present: c.dtcm_present, vtor_present: c.vtor_present, nvic_priority_bits: Some(c.nvic_priority_bits), has_vendor_systick: Some(c.has_vendor_systick), device_num_interrupts: c.device_num_interrupts, sau_num_regions: c.sau_num_regions, }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::name -> r
    ensures r == (CpuBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::revision -> r
    ensures r == (CpuBuilder { revision: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::endian -> r
    ensures r == (CpuBuilder { endian: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::mpu_present -> r
    ensures r == (CpuBuilder { mpu_present: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::fpu_present -> r
    ensures r == (CpuBuilder { fpu_present: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::fpu_double_precision -> r
    ensures r == (CpuBuilder { fpu_double_precision: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::dsp_present -> r
    ensures r == (CpuBuilder { dsp_present: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::icache_present -> r
    ensures r == (CpuBuilder { icache_present: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::dcache_present -> r
    ensures r == (CpuBuilder { dcache_present: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::itcm_present -> r
    ensures r == (CpuBuilder { itcm_present: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::dtcm_present -> r
    ensures r == (CpuBuilder { dtcm_present: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::vtor_present -> r
    ensures r == (CpuBuilder { vtor_present: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::nvic_priority_bits -> r
    ensures r == (CpuBuilder { nvic_priority_bits: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::has_vendor_systick -> r
    ensures r == (CpuBuilder { has_vendor_systick: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::device_num_interrupts -> r
    ensures r == (CpuBuilder { device_num_interrupts: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::sau_num_regions -> r
    ensures r == (CpuBuilder { sau_num_regions: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cpu.rs Cpu::builder -> r
    ensures r.name is None, r.revision is None, r.endian is None, r.mpu_present is None, r.fpu_present is None, r.fpu_double_precision is None, r.dsp_present is None, r.icache_present is None, r.dcache_present is None, r.itcm_present is None, r.dtcm_present is None, r.vtor_present is None, r.nvic_priority_bits is None, r.has_vendor_systick is None, r.device_num_interrupts is None, r.sau_num_regions is None,
//@ endfn
//@ fn svd-rs/src/cpu.rs CpuBuilder::build -> r
    ensures
        r matches Ok(x) ==> cpu_complete(self, lvl) && cpu_stores(x, self),
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> cpu_missing(self, lvl, n@),
        !cpu_complete(self, lvl) ==> r matches Err(SvdError::Build(_)),
        cpu_complete(self, lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- DimElement
// the mandatory properties are there
pub open spec fn dim_complete(b: DimElementBuilder, lvl: ValidateLevel) -> bool { b.dim is Some && b.dim_increment is Some }
pub open spec fn dim_missing(b: DimElementBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.dim is Some) && name == "dim"@) || (!(b.dim_increment is Some) && name == "dim_increment"@) }
// x has the values that were set
pub open spec fn dim_stores(x: DimElement, b: DimElementBuilder) -> bool {
    &&& b.dim == Some(x.dim)
    &&& b.dim_increment == Some(x.dim_increment)
    &&& opt_list_kept(x.dim_index, b.dim_index)
    &&& text_kept(x.dim_name, b.dim_name)
    &&& x.dim_array_index == b.dim_array_index
}
//@ fn svd-rs/src/dimelement.rs <DimElementBuilder as From<DimElement>>::from -> r
    ensures r == (DimElementBuilder { dim: Some(d.dim), dim_increment: Some(d.dim_increment), dim_index: d.dim_index, dim_name: d.dim_name, dim_array_index: d.dim_array_index, }),
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElementBuilder::dim -> r
    ensures r == (DimElementBuilder { dim: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElementBuilder::dim_increment -> r
    ensures r == (DimElementBuilder { dim_increment: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElementBuilder::dim_index -> r
    ensures r == (DimElementBuilder { dim_index: value, ..self }),
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElementBuilder::dim_name -> r
    ensures r == (DimElementBuilder { dim_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElementBuilder::dim_array_index -> r
    ensures r == (DimElementBuilder { dim_array_index: value, ..self }),
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElement::builder -> r
    ensures r.dim is None, r.dim_increment is None, r.dim_index is None, r.dim_name is None, r.dim_array_index is None,
//@ endfn
//@ fn svd-rs/src/dimelement.rs DimElementBuilder::build -> r
    ensures
        r matches Ok(x) ==> dim_complete(self, lvl) && dim_stores(x, self),
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> dim_missing(self, lvl, n@),
        !dim_complete(self, lvl) ==> r matches Err(SvdError::Build(_)),
        dim_complete(self, lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
//@ fn svd-rs/src/bitrange.rs BitRange::from_offset_width -> r
    ensures r == (BitRange { offset, width, range_type: BitRangeType::OffsetWidth }),
//@ endfn
// ---------------------------------------------------------------- EnumeratedValue
// the mandatory properties are there
pub open spec fn ev_complete(b: EnumeratedValueBuilder, lvl: ValidateLevel) -> bool { b.name is Some }
pub open spec fn ev_missing(b: EnumeratedValueBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) }
// x has the values that were set
pub open spec fn ev_stores(x: EnumeratedValue, b: EnumeratedValueBuilder) -> bool {
    &&& b.name == Some(x.name)
    &&& text_kept(x.description, b.description)
    &&& x.value == b.value
    &&& x.is_default == b.is_default
}
//@ fn svd-rs/src/enumeratedvalue.rs <EnumeratedValueBuilder as From<EnumeratedValue>>::from -> r
    ensures r == (EnumeratedValueBuilder { name: Some(e.name), description: e.description, value: e.value, is_default: e.is_default, }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValueBuilder::name -> r
    ensures r == (EnumeratedValueBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValueBuilder::description -> r
    ensures r == (EnumeratedValueBuilder { description: value, ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValueBuilder::value -> r
    ensures r == (EnumeratedValueBuilder { value: value, ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValueBuilder::is_default -> r
    ensures r == (EnumeratedValueBuilder { is_default: value, ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValue::builder -> r
    ensures r.name is None, r.description is None, r.value is None, r.is_default is None,
//@ endfn
pub open spec fn ev_built(b: EnumeratedValueBuilder) -> EnumeratedValue {
    EnumeratedValue { name: b.name->0, description: text_of(b.description), value: b.value, is_default: b.is_default }
}
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValueBuilder::build -> r
    ensures
        r matches Ok(x) ==> ev_complete(self, lvl) && ev_stores(x, self) && ev_ok(x, lvl),
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> ev_missing(self, lvl, n@),
        !ev_complete(self, lvl) ==> r matches Err(SvdError::Build(_)),
        ev_complete(self, lvl) && ev_ok(ev_built(self), lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- EnumeratedValues
// the mandatory properties are there
pub open spec fn evs_complete(b: EnumeratedValuesBuilder, lvl: ValidateLevel) -> bool { true }
pub open spec fn evs_missing(b: EnumeratedValuesBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { false }
// x has the values that were set
pub open spec fn evs_stores(x: EnumeratedValues, b: EnumeratedValuesBuilder) -> bool {
    &&& text_kept(x.name, b.name)
    &&& x.usage == b.usage
    &&& x.derived_from == b.derived_from
    &&& list_kept(x.values, b.values)
}
//@ fn svd-rs/src/enumeratedvalues.rs <EnumeratedValuesBuilder as From<EnumeratedValues>>::from -> r
    ensures r == (EnumeratedValuesBuilder { name: e.name, usage: e.usage, derived_from: e.derived_from, values: Some(e.values), }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValuesBuilder::name -> r
    ensures r == (EnumeratedValuesBuilder { name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValuesBuilder::usage -> r
    ensures r == (EnumeratedValuesBuilder { usage: value, ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValuesBuilder::derived_from -> r
    ensures r == (EnumeratedValuesBuilder { derived_from: value, ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValuesBuilder::values -> r
    ensures r == (EnumeratedValuesBuilder { values: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::builder -> r
    ensures r.name is None, r.usage is None, r.derived_from is None, r.values is None,
//@ endfn
pub open spec fn evs_built(b: EnumeratedValuesBuilder) -> EnumeratedValues {
    EnumeratedValues { name: text_of(b.name), usage: b.usage, derived_from: b.derived_from, values: list_of(b.values) }
}
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValuesBuilder::build -> r
    ensures
        r matches Ok(x) ==> evs_complete(self, lvl) && evs_stores(x, self) && evs_ok(x, lvl),
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> evs_missing(self, lvl, n@),
        !evs_complete(self, lvl) ==> r matches Err(SvdError::Build(_)),
        evs_complete(self, lvl) && evs_ok(evs_built(self), lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- FieldInfo
// the mandatory properties are there
pub open spec fn field_complete(b: FieldInfoBuilder, lvl: ValidateLevel) -> bool { b.name is Some && b.bit_range is Some }
pub open spec fn field_missing(b: FieldInfoBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) || (!(b.bit_range is Some) && name == "bit_range"@) }
// x has the values that were set
pub open spec fn field_stores(x: FieldInfo, b: FieldInfoBuilder) -> bool {
    &&& b.name == Some(x.name)
    &&& text_kept(x.description, b.description)
    &&& b.bit_range == Some(x.bit_range)
    &&& x.access == b.access
    &&& x.modified_write_values == b.modified_write_values
    &&& x.write_constraint == b.write_constraint
    &&& x.read_action == b.read_action
    &&& list_kept(x.enumerated_values, b.enumerated_values)
    &&& x.derived_from == b.derived_from
}
//@ fn svd-rs/src/field.rs <FieldInfoBuilder as From<FieldInfo>>::from -> r
    ensures r == (FieldInfoBuilder { name: Some(f.name), description: f.description, bit_range: Some(f.bit_range), access: f.access, modified_write_values: f.modified_write_values, write_constraint: f.write_constraint, read_action: f.read_action, enumerated_values: Some(f.enumerated_values), derived_from: f.derived_from, bit_offset: None, bit_width: None, }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::name -> r
    ensures r == (FieldInfoBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::description -> r
    ensures r == (FieldInfoBuilder { description: value, ..self }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::access -> r
    ensures r == (FieldInfoBuilder { access: value, ..self }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::modified_write_values -> r
    ensures r == (FieldInfoBuilder { modified_write_values: value, ..self }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::write_constraint -> r
    ensures r == (FieldInfoBuilder { write_constraint: value, ..self }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::read_action -> r
    ensures r == (FieldInfoBuilder { read_action: value, ..self }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::enumerated_values -> r
    ensures r == (FieldInfoBuilder { enumerated_values: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::derived_from -> r
    ensures r == (FieldInfoBuilder { derived_from: value, ..self }),
//@ endfn
// the position a builder stands for, as far as it is known
pub open spec fn fb_offset(b: FieldInfoBuilder) -> Option<u32> { match b.bit_range { Some(r) => Some(r.offset), None => b.bit_offset } }
pub open spec fn fb_width(b: FieldInfoBuilder) -> Option<u32> { match b.bit_range { Some(r) => Some(r.width), None => b.bit_width } }
// everything else is the same
pub open spec fn fb_rest(a: FieldInfoBuilder, b: FieldInfoBuilder) -> bool {
    a == (FieldInfoBuilder { bit_range: a.bit_range, bit_offset: a.bit_offset, bit_width: a.bit_width, ..b })
}
// offset and width together are a range: this holds of a new builder and is kept by every setter
pub open spec fn fb_inv(b: FieldInfoBuilder) -> bool {
    &&& b.bit_offset is None || b.bit_width is None
    &&& b.bit_range is Some ==> b.bit_offset is None && b.bit_width is None
}

//@ fn svd-rs/src/field.rs FieldInfoBuilder::bit_offset -> r
    requires fb_inv(self),
    ensures
        fb_rest(r, self), fb_inv(r),
        fb_offset(r) == Some(value),
        fb_width(r) == fb_width(self),
        fb_width(self) is Some ==> r.bit_range is Some,
        self.bit_range matches Some(o) ==> r.bit_range->0.range_type == o.range_type,
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::bit_width -> r
    requires fb_inv(self),
    ensures
        fb_rest(r, self), fb_inv(r),
        fb_width(r) == Some(value),
        fb_offset(r) == fb_offset(self),
        fb_offset(self) is Some ==> r.bit_range is Some,
        self.bit_range matches Some(o) ==> r.bit_range->0.range_type == o.range_type,
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfoBuilder::bit_range -> r
    ensures
        fb_rest(r, self), fb_inv(r),
        r.bit_range == Some(value),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::builder -> r
    ensures r.name is None, r.description is None, r.bit_range is None, r.access is None, r.modified_write_values is None, r.write_constraint is None, r.read_action is None, r.enumerated_values is None, r.derived_from is None, r.bit_offset is None, r.bit_width is None, fb_inv(r),
//@ endfn
pub open spec fn field_built(b: FieldInfoBuilder) -> FieldInfo {
    FieldInfo { name: b.name->0, description: text_of(b.description), bit_range: b.bit_range->0, access: b.access, modified_write_values: b.modified_write_values, write_constraint: b.write_constraint, read_action: b.read_action, enumerated_values: list_of(b.enumerated_values), derived_from: b.derived_from }
}
//@ fn svd-rs/src/field.rs FieldInfoBuilder::build -> r
    ensures
        r matches Ok(x) ==> field_complete(self, lvl) && field_stores(x, self) && field_ok(x, lvl),
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> field_missing(self, lvl, n@),
        !field_complete(self, lvl) ==> r matches Err(SvdError::Build(_)),
        field_complete(self, lvl) && field_ok(field_built(self), lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::single -> r
    ensures r == (MaybeArray::Single(self)),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::array -> r
    ensures r == (MaybeArray::Array(self, dim)),
//@ endfn
//@ fn svd-rs/src/field.rs FieldInfo::maybe_array -> r
    ensures r == (match dim { Some(d) => MaybeArray::Array(self, d), None => MaybeArray::Single(self) }),
//@ endfn
// ---------------------------------------------------------------- RegisterInfo
// the mandatory properties are there
pub open spec fn reg_complete(b: RegisterInfoBuilder, lvl: ValidateLevel) -> bool { b.name is Some && b.address_offset is Some }
pub open spec fn reg_missing(b: RegisterInfoBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) || (!(b.address_offset is Some) && name == "address_offset"@) }
// x has the values that were set
pub open spec fn reg_stores(x: RegisterInfo, b: RegisterInfoBuilder) -> bool {
    &&& b.name == Some(x.name)
    &&& text_kept(x.display_name, b.display_name)
    &&& text_kept(x.description, b.description)
    &&& text_kept(x.alternate_group, b.alternate_group)
    &&& text_kept(x.alternate_register, b.alternate_register)
    &&& b.address_offset == Some(x.address_offset)
    &&& x.properties == b.properties
    &&& x.datatype == b.datatype
    &&& x.modified_write_values == b.modified_write_values
    &&& x.write_constraint == b.write_constraint
    &&& x.read_action == b.read_action
    &&& opt_list_kept(x.fields, b.fields)
    &&& x.derived_from == b.derived_from
}
//@ fn svd-rs/src/register.rs <RegisterInfoBuilder as From<RegisterInfo>>::from -> q
    ensures q == (RegisterInfoBuilder { name: Some(r.name), display_name: r.display_name, description: r.description, alternate_group: r.alternate_group, alternate_register: r.alternate_register, address_offset: Some(r.address_offset), properties: r.properties, datatype: r.datatype, modified_write_values: r.modified_write_values, write_constraint: r.write_constraint, read_action: r.read_action, fields: r.fields, derived_from: r.derived_from, }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::name -> r
    ensures r == (RegisterInfoBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::display_name -> r
    ensures r == (RegisterInfoBuilder { display_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::description -> r
    ensures r == (RegisterInfoBuilder { description: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::alternate_group -> r
    ensures r == (RegisterInfoBuilder { alternate_group: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::alternate_register -> r
    ensures r == (RegisterInfoBuilder { alternate_register: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::address_offset -> r
    ensures r == (RegisterInfoBuilder { address_offset: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::properties -> r
    ensures r == (RegisterInfoBuilder { properties: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::datatype -> r
    ensures r == (RegisterInfoBuilder { datatype: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::modified_write_values -> r
    ensures r == (RegisterInfoBuilder { modified_write_values: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::write_constraint -> r
    ensures r == (RegisterInfoBuilder { write_constraint: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::read_action -> r
    ensures r == (RegisterInfoBuilder { read_action: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::fields -> r
    ensures r == (RegisterInfoBuilder { fields: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::derived_from -> r
    ensures r == (RegisterInfoBuilder { derived_from: value, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::size -> r
    ensures r == (RegisterInfoBuilder { properties: RegisterProperties { size: value, ..self.properties }, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::access -> r
    ensures r == (RegisterInfoBuilder { properties: RegisterProperties { access: value, ..self.properties }, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::reset_value -> r
    ensures r == (RegisterInfoBuilder { properties: RegisterProperties { reset_value: value, ..self.properties }, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::reset_mask -> r
    ensures r == (RegisterInfoBuilder { properties: RegisterProperties { reset_mask: value, ..self.properties }, ..self }),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::builder -> r
    ensures r.name is None, r.display_name is None, r.description is None, r.alternate_group is None, r.alternate_register is None, r.address_offset is None, r.properties == (RegisterProperties { size: None, access: None, protection: None, reset_value: None, reset_mask: None }), r.datatype is None, r.modified_write_values is None, r.write_constraint is None, r.read_action is None, r.fields is None, r.derived_from is None,
//@ endfn
pub open spec fn reg_built(b: RegisterInfoBuilder) -> RegisterInfo {
    RegisterInfo { name: b.name->0, display_name: b.display_name, description: b.description, alternate_group: b.alternate_group, alternate_register: b.alternate_register, address_offset: b.address_offset->0, properties: b.properties, datatype: b.datatype, modified_write_values: b.modified_write_values, write_constraint: b.write_constraint, read_action: b.read_action, fields: b.fields, derived_from: b.derived_from }
}
//@ fn svd-rs/src/register.rs RegisterInfoBuilder::build -> r
    ensures
        r matches Ok(x) ==> reg_complete(self, lvl) && reg_stores(x, self) && reg_ok(x, lvl) && rp_valid(self.properties, lvl) is Ok,
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> reg_missing(self, lvl, n@),
        !reg_complete(self, lvl) && rp_valid(self.properties, lvl) is Ok ==> r matches Err(SvdError::Build(_)),
        reg_complete(self, lvl) && rp_valid(self.properties, lvl) is Ok && reg_ok(reg_built(self), lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::single -> r
    ensures r == (MaybeArray::Single(self)),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::array -> r
    ensures r == (MaybeArray::Array(self, dim)),
//@ endfn
//@ fn svd-rs/src/register.rs RegisterInfo::maybe_array -> r
    ensures r == (match dim { Some(d) => MaybeArray::Array(self, d), None => MaybeArray::Single(self) }),
//@ endfn
// ---------------------------------------------------------------- ClusterInfo
// the mandatory properties are there
pub open spec fn cl_complete(b: ClusterInfoBuilder, lvl: ValidateLevel) -> bool { b.name is Some && b.address_offset is Some && b.children is Some }
pub open spec fn cl_missing(b: ClusterInfoBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) || (!(b.address_offset is Some) && name == "address_offset"@) || (!(b.children is Some) && name == "children"@) }
// x has the values that were set
pub open spec fn cl_stores(x: ClusterInfo, b: ClusterInfoBuilder) -> bool {
    &&& b.name == Some(x.name)
    &&& text_kept(x.description, b.description)
    &&& text_kept(x.alternate_cluster, b.alternate_cluster)
    &&& text_kept(x.header_struct_name, b.header_struct_name)
    &&& b.address_offset == Some(x.address_offset)
    &&& x.default_register_properties == b.default_register_properties
    &&& b.children == Some(x.children)
    &&& x.derived_from == b.derived_from
}
//@ fn svd-rs/src/cluster.rs <ClusterInfoBuilder as From<ClusterInfo>>::from -> r
    ensures r == (ClusterInfoBuilder { name: Some(c.name), description: c.description, alternate_cluster: c.alternate_cluster, header_struct_name: c.header_struct_name, address_offset: Some(c.address_offset), default_register_properties: c.default_register_properties, children: Some(c.children), derived_from: c.derived_from, }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::name -> r
    ensures r == (ClusterInfoBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::description -> r
    ensures r == (ClusterInfoBuilder { description: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::alternate_cluster -> r
    ensures r == (ClusterInfoBuilder { alternate_cluster: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::header_struct_name -> r
    ensures r == (ClusterInfoBuilder { header_struct_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::address_offset -> r
    ensures r == (ClusterInfoBuilder { address_offset: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::default_register_properties -> r
    ensures r == (ClusterInfoBuilder { default_register_properties: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::children -> r
    ensures r == (ClusterInfoBuilder { children: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::derived_from -> r
    ensures r == (ClusterInfoBuilder { derived_from: value, ..self }),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::builder -> r
    ensures r.name is None, r.description is None, r.alternate_cluster is None, r.header_struct_name is None, r.address_offset is None, r.default_register_properties == (RegisterProperties { size: None, access: None, protection: None, reset_value: None, reset_mask: None }), r.children is None, r.derived_from is None,
//@ endfn
pub open spec fn cl_built(b: ClusterInfoBuilder) -> ClusterInfo {
    ClusterInfo { name: b.name->0, description: text_of(b.description), alternate_cluster: text_of(b.alternate_cluster), header_struct_name: text_of(b.header_struct_name), address_offset: b.address_offset->0, default_register_properties: b.default_register_properties, children: b.children->0, derived_from: b.derived_from }
}
//@ fn svd-rs/src/cluster.rs ClusterInfoBuilder::build -> r
    ensures
        r matches Ok(x) ==> cl_complete(self, lvl) && cl_stores(x, self) && cl_ok(x, lvl) && rp_valid(self.default_register_properties, lvl) is Ok,
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> cl_missing(self, lvl, n@),
        !cl_complete(self, lvl) && rp_valid(self.default_register_properties, lvl) is Ok ==> r matches Err(SvdError::Build(_)),
        cl_complete(self, lvl) && rp_valid(self.default_register_properties, lvl) is Ok && cl_ok(cl_built(self), lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::single -> r
    ensures r == (MaybeArray::Single(self)),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::array -> r
    ensures r == (MaybeArray::Array(self, dim)),
//@ endfn
//@ fn svd-rs/src/cluster.rs ClusterInfo::maybe_array -> r
    ensures r == (match dim { Some(d) => MaybeArray::Array(self, d), None => MaybeArray::Single(self) }),
//@ endfn
// ---------------------------------------------------------------- PeripheralInfo
// the mandatory properties are there
pub open spec fn per_complete(b: PeripheralInfoBuilder, lvl: ValidateLevel) -> bool { b.name is Some && b.base_address is Some }
pub open spec fn per_missing(b: PeripheralInfoBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) || (!(b.base_address is Some) && name == "base_address"@) }
// x has the values that were set
pub open spec fn per_stores(x: PeripheralInfo, b: PeripheralInfoBuilder) -> bool {
    &&& b.name == Some(x.name)
    &&& text_kept(x.display_name, b.display_name)
    &&& text_kept(x.version, b.version)
    &&& text_kept(x.description, b.description)
    &&& text_kept(x.alternate_peripheral, b.alternate_peripheral)
    &&& text_kept(x.group_name, b.group_name)
    &&& text_kept(x.prepend_to_name, b.prepend_to_name)
    &&& text_kept(x.append_to_name, b.append_to_name)
    &&& text_kept(x.header_struct_name, b.header_struct_name)
    &&& b.base_address == Some(x.base_address)
    &&& x.default_register_properties == b.default_register_properties
    &&& x.address_block == b.address_block
    &&& list_kept(x.interrupt, b.interrupt)
    &&& opt_list_kept(x.registers, b.registers)
    &&& x.derived_from == b.derived_from
}
//@ fn svd-rs/src/peripheral.rs <PeripheralInfoBuilder as From<PeripheralInfo>>::from -> r
    ensures r == (PeripheralInfoBuilder { name: Some(p.name), display_name: p.display_name, version: p.version, description: p.description, alternate_peripheral: p.alternate_peripheral, group_name: p.group_name, prepend_to_name: p.prepend_to_name, append_to_name: p.append_to_name, header_struct_name: p.header_struct_name, base_address: Some(p.base_address), default_register_properties: p.default_register_properties, address_block: p.address_block, interrupt: Some(p.interrupt), registers: p.registers, derived_from: p.derived_from, }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::name -> r
    ensures r == (PeripheralInfoBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::display_name -> r
    ensures r == (PeripheralInfoBuilder { display_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::version -> r
    ensures r == (PeripheralInfoBuilder { version: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::description -> r
    ensures r == (PeripheralInfoBuilder { description: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::alternate_peripheral -> r
    ensures r == (PeripheralInfoBuilder { alternate_peripheral: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::group_name -> r
    ensures r == (PeripheralInfoBuilder { group_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::prepend_to_name -> r
    ensures r == (PeripheralInfoBuilder { prepend_to_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::append_to_name -> r
    ensures r == (PeripheralInfoBuilder { append_to_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::header_struct_name -> r
    ensures r == (PeripheralInfoBuilder { header_struct_name: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::base_address -> r
    ensures r == (PeripheralInfoBuilder { base_address: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::default_register_properties -> r
    ensures r == (PeripheralInfoBuilder { default_register_properties: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::address_block -> r
    ensures r == (PeripheralInfoBuilder { address_block: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::interrupt -> r
    ensures r == (PeripheralInfoBuilder { interrupt: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::registers -> r
    ensures r == (PeripheralInfoBuilder { registers: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::derived_from -> r
    ensures r == (PeripheralInfoBuilder { derived_from: value, ..self }),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::builder -> r
    ensures r.name is None, r.display_name is None, r.version is None, r.description is None, r.alternate_peripheral is None, r.group_name is None, r.prepend_to_name is None, r.append_to_name is None, r.header_struct_name is None, r.base_address is None, r.default_register_properties == (RegisterProperties { size: None, access: None, protection: None, reset_value: None, reset_mask: None }), r.address_block is None, r.interrupt is None, r.registers is None, r.derived_from is None,
//@ endfn
pub open spec fn per_built(b: PeripheralInfoBuilder) -> PeripheralInfo {
    PeripheralInfo { name: b.name->0, display_name: text_of(b.display_name), version: text_of(b.version), description: text_of(b.description), alternate_peripheral: text_of(b.alternate_peripheral), group_name: text_of(b.group_name), prepend_to_name: text_of(b.prepend_to_name), append_to_name: text_of(b.append_to_name), header_struct_name: text_of(b.header_struct_name), base_address: b.base_address->0, default_register_properties: b.default_register_properties, address_block: b.address_block, interrupt: list_of(b.interrupt), registers: b.registers, derived_from: b.derived_from }
}
//@ fn svd-rs/src/peripheral.rs PeripheralInfoBuilder::build -> r
    ensures
        r matches Ok(x) ==> per_complete(self, lvl) && per_stores(x, self) && per_ok(x, lvl) && rp_valid(self.default_register_properties, lvl) is Ok,
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> per_missing(self, lvl, n@),
        !per_complete(self, lvl) && rp_valid(self.default_register_properties, lvl) is Ok ==> r matches Err(SvdError::Build(_)),
        per_complete(self, lvl) && rp_valid(self.default_register_properties, lvl) is Ok && per_ok(per_built(self), lvl) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::single -> r
    ensures r == (MaybeArray::Single(self)),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::array -> r
    ensures r == (MaybeArray::Array(self, dim)),
//@ endfn
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::maybe_array -> r
    ensures r == (match dim { Some(d) => MaybeArray::Array(self, d), None => MaybeArray::Single(self) }),
//@ endfn
//@ module spec
// ---------------------------------------------------------------- Device
//@ fn svd-rs/src/device.rs default_xmlns_xs -> r
    ensures r@ == "http://www.w3.org/2001/XMLSchema-instance"@,
//@ start
    broadcast use crate::ax::vx_axioms_device;
//@ endfn
//@ fn svd-rs/src/device.rs default_schema_version -> r
    ensures r@ == "1.1"@,
//@ start
    broadcast use crate::ax::vx_axioms_device;
//@ endfn
//@ fn svd-rs/src/device.rs default_no_namespace_schema_location -> r
    ensures r@ == "CMSIS-SVD_Schema_1_1.xsd"@,
//@ start
    proof {
        reveal_strlit("1.1"); reveal_strlit("CMSIS-SVD_Schema_1_1.xsd");
        reveal_with_fuel(replace_all, 5);
        let t = seq!['1', '.', '1'];
        assert("1.1"@ =~= t);
        assert("_"@ =~= seq!['_']);
        assert(t.skip(1) =~= seq!['.', '1'] && t.drop_first() =~= seq!['.', '1']);
        assert(seq!['.', '1'].skip(1) =~= seq!['1']);
        assert(seq!['1'].drop_first() =~= seq![]);
        assert(seq!['.'].is_prefix_of(seq!['.', '1']));
        assert(t.subrange(0, 1)[0] == '1' && seq!['1'].subrange(0, 1)[0] == '1' && seq!['.'][0] == '.');
        assert(!seq!['.'].is_prefix_of(t) && !seq!['.'].is_prefix_of(seq!['1']));
        assert(replace_all(seq!['1'], seq!['.'], "_"@) =~= seq!['1']);
        assert(replace_all(seq!['.', '1'], seq!['.'], "_"@) =~= seq!['_', '1']);
        assert(replace_all(t, seq!['.'], "_"@) =~= seq!['1', '_', '1']);
        assert("CMSIS-SVD_Schema_"@ + seq!['1', '_', '1'] + ".xsd"@ =~= "CMSIS-SVD_Schema_1_1.xsd"@);
    }
//@ endfn
// the mandatory properties are there
pub open spec fn dev_complete(b: DeviceBuilder, lvl: ValidateLevel) -> bool { b.name is Some && (b.version is Some || !strict(lvl)) && (b.description is Some || !strict(lvl)) && (b.address_unit_bits is Some || !strict(lvl)) && (b.width is Some || !strict(lvl)) && b.peripherals is Some }
pub open spec fn dev_missing(b: DeviceBuilder, lvl: ValidateLevel, name: Seq<char>) -> bool { (!(b.name is Some) && name == "name"@) || (!(b.version is Some || !strict(lvl)) && name == "version"@) || (!(b.description is Some || !strict(lvl)) && name == "description"@) || (!(b.address_unit_bits is Some || !strict(lvl)) && name == "addressUnitBits"@) || (!(b.width is Some || !strict(lvl)) && name == "width"@) || (!(b.peripherals is Some) && name == "peripherals"@) }
// x has the values that were set
pub open spec fn dev_stores(x: Device, b: DeviceBuilder) -> bool {
    &&& text_kept(x.vendor, b.vendor)
    &&& text_kept(x.vendor_id, b.vendor_id)
    &&& b.name == Some(x.name)
    &&& text_kept(x.series, b.series)
    &&& match b.version { Some(v) => x.version == v, None => x.version@ == "1.0"@ }
    &&& match b.description { Some(v) => x.description == v, None => x.description@ == ""@ }
    &&& text_kept(x.license_text, b.license_text)
    &&& x.cpu == b.cpu
    &&& text_kept(x.header_system_filename, b.header_system_filename)
    &&& text_kept(x.header_definitions_prefix, b.header_definitions_prefix)
    &&& match b.address_unit_bits { Some(v) => x.address_unit_bits == v, None => x.address_unit_bits == 8 }
    &&& match b.width { Some(v) => x.width == v, None => x.width == 32 }
    &&& x.default_register_properties == b.default_register_properties
    &&& b.peripherals == Some(x.peripherals)
    &&& match b.xmlns_xs { Some(v) => x.xmlns_xs == v, None => x.xmlns_xs@ == "http://www.w3.org/2001/XMLSchema-instance"@ }
    &&& match b.no_namespace_schema_location { Some(v) => x.no_namespace_schema_location == v, None => x.no_namespace_schema_location@ == "CMSIS-SVD_Schema_1_1.xsd"@ }
    &&& match b.schema_version { Some(v) => x.schema_version == v, None => x.schema_version@ == "1.1"@ }
}
//@ fn svd-rs/src/device.rs <DeviceBuilder as From<Device>>::from -> r
    ensures r == (DeviceBuilder { vendor: d.vendor, vendor_id: d.vendor_id, name: Some(d.name), series: d.series, version: Some(d.version), description: Some(d.description), license_text: d.license_text, cpu: d.cpu, header_system_filename: d.header_system_filename, header_definitions_prefix: d.header_definitions_prefix, address_unit_bits: Some(d.address_unit_bits), width: Some(d.width), default_register_properties: d.default_register_properties, peripherals: Some(d.peripherals), xmlns_xs: Some(d.xmlns_xs), no_namespace_schema_location: Some(d.no_namespace_schema_location), schema_version: Some(d.schema_version), }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::vendor -> r
    ensures r == (DeviceBuilder { vendor: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::vendor_id -> r
    ensures r == (DeviceBuilder { vendor_id: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::name -> r
    ensures r == (DeviceBuilder { name: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::series -> r
    ensures r == (DeviceBuilder { series: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::version -> r
    ensures r == (DeviceBuilder { version: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::description -> r
    ensures r == (DeviceBuilder { description: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::license_text -> r
    ensures r == (DeviceBuilder { license_text: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::cpu -> r
    ensures r == (DeviceBuilder { cpu: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::header_system_filename -> r
    ensures r == (DeviceBuilder { header_system_filename: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::header_definitions_prefix -> r
    ensures r == (DeviceBuilder { header_definitions_prefix: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::address_unit_bits -> r
    ensures r == (DeviceBuilder { address_unit_bits: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::width -> r
    ensures r == (DeviceBuilder { width: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::default_register_properties -> r
    ensures r == (DeviceBuilder { default_register_properties: value, ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::peripherals -> r
    ensures r == (DeviceBuilder { peripherals: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::xmlns_xs -> r
    ensures r == (DeviceBuilder { xmlns_xs: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::no_namespace_schema_location -> r
    ensures r == (DeviceBuilder { no_namespace_schema_location: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::schema_version -> r
    ensures r == (DeviceBuilder { schema_version: Some(value), ..self }),
//@ endfn
//@ fn svd-rs/src/device.rs Device::builder -> r
    ensures r.vendor is None, r.vendor_id is None, r.name is None, r.series is None, r.version is None, r.description is None, r.license_text is None, r.cpu is None, r.header_system_filename is None, r.header_definitions_prefix is None, r.address_unit_bits is None, r.width is None, r.default_register_properties == (RegisterProperties { size: None, access: None, protection: None, reset_value: None, reset_mask: None }), r.peripherals is None, r.xmlns_xs is None, r.no_namespace_schema_location is None, r.schema_version is None,
//@ endfn
//@ fn svd-rs/src/device.rs DeviceBuilder::build -> r
    ensures
        r matches Ok(x) ==> dev_complete(self, lvl) && dev_stores(x, self) && dev_ok(x, lvl) && rp_valid(self.default_register_properties, lvl) is Ok,
        r matches Err(SvdError::Build(BuildError::Uninitialized(n))) ==> dev_missing(self, lvl, n@),
        !dev_complete(self, lvl) && rp_valid(self.default_register_properties, lvl) is Ok ==> r matches Err(SvdError::Build(_)),
        dev_complete(self, lvl) && rp_valid(self.default_register_properties, lvl) is Ok && (weak(lvl) ==> self.peripherals->0@.len() > 0) ==> r is Ok,
//@ start
    broadcast use crate::spec::lemma_empty_vec, crate::ax::vx_axioms_device;
//@ endfn
