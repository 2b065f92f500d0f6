// C20: modifying elements.
//@ include build_common.rs
// ---------------------------------------------------------------- AddressBlock
// what a modification leaves behind
pub open spec fn ab_modified(x: AddressBlock, b: AddressBlockBuilder, y: AddressBlock) -> bool {
    &&& y.offset == or_old(b.offset, x.offset)
    &&& y.size == or_old(b.size, x.size)
    &&& y.usage == or_old(b.usage, x.usage)
    &&& y.protection == (if b.protection is Some { b.protection } else { x.protection })
}
//@ fn svd-rs/src/addressblock.rs AddressBlock::modify_from -> r
    ensures
        r is Ok ==> ab_modified(*old(self), builder, *final(self)) && true,
        r is Err ==> ab_modified(*old(self), builder, *final(self)) && false,
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- Interrupt
// what a modification leaves behind
pub open spec fn int_modified(x: Interrupt, b: InterruptBuilder, y: Interrupt) -> bool {
    &&& y.name == or_old(b.name, x.name)
    &&& y.description == text_mod(x.description, b.description)
    &&& y.value == or_old(b.value, x.value)
}
//@ fn svd-rs/src/interrupt.rs Interrupt::modify_from -> r
    ensures
        r is Ok ==> int_modified(*old(self), builder, *final(self)) && true,
        r is Err ==> int_modified(*old(self), builder, *final(self)) && false,
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- Cpu
// what a modification leaves behind
pub open spec fn cpu_modified(x: Cpu, b: CpuBuilder, y: Cpu) -> bool {
    &&& y.name == or_old(b.name, x.name)
    &&& y.revision == or_old(b.revision, x.revision)
    &&& y.endian == or_old(b.endian, x.endian)
    &&& y.mpu_present == or_old(b.mpu_present, x.mpu_present)
    &&& y.fpu_present == or_old(b.fpu_present, x.fpu_present)
    &&& y.fpu_double_precision == (if b.fpu_double_precision is Some { b.fpu_double_precision } else { x.fpu_double_precision })
    &&& y.dsp_present == (if b.dsp_present is Some { b.dsp_present } else { x.dsp_present })
    &&& y.icache_present == (if b.icache_present is Some { b.icache_present } else { x.icache_present })
    &&& y.dcache_present == (if b.dcache_present is Some { b.dcache_present } else { x.dcache_present })
    &&& y.itcm_present == (if b.itcm_present is Some { b.itcm_present } else { x.itcm_present })
    &&& y.dtcm_present == (if b.dtcm_present is Some { b.dtcm_present } else { x.dtcm_present })
    &&& y.vtor_present == (if b.vtor_present is Some { b.vtor_present } else { x.vtor_present })
    &&& y.nvic_priority_bits == or_old(b.nvic_priority_bits, x.nvic_priority_bits)
    &&& y.has_vendor_systick == or_old(b.has_vendor_systick, x.has_vendor_systick)
    &&& y.device_num_interrupts == (if b.device_num_interrupts is Some { b.device_num_interrupts } else { x.device_num_interrupts })
    &&& y.sau_num_regions == (if b.sau_num_regions is Some { b.sau_num_regions } else { x.sau_num_regions })
}
//@ fn svd-rs/src/cpu.rs Cpu::modify_from -> r
    ensures
        r is Ok ==> cpu_modified(*old(self), builder, *final(self)) && true,
        r is Err ==> cpu_modified(*old(self), builder, *final(self)) && false,
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- DimElement
// what a modification leaves behind
pub open spec fn dim_modified(x: DimElement, b: DimElementBuilder, y: DimElement) -> bool {
    &&& y.dim == or_old(b.dim, x.dim)
    &&& y.dim_increment == or_old(b.dim_increment, x.dim_increment)
    &&& y.dim_index == opt_list_mod(x.dim_index, b.dim_index)
    &&& y.dim_name == text_mod(x.dim_name, b.dim_name)
    &&& y.dim_array_index == (if b.dim_array_index is Some { b.dim_array_index } else { x.dim_array_index })
}
//@ fn svd-rs/src/dimelement.rs DimElement::modify_from -> r
    ensures
        r is Ok ==> dim_modified(*old(self), builder, *final(self)) && true,
        r is Err ==> dim_modified(*old(self), builder, *final(self)) && false,
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- EnumeratedValue
// what a modification leaves behind
pub open spec fn ev_modified(x: EnumeratedValue, b: EnumeratedValueBuilder, y: EnumeratedValue) -> bool {
    &&& y.name == or_old(b.name, x.name)
    &&& y.description == text_mod(x.description, b.description)
    &&& y.value == (if b.value is Some { b.value } else { x.value })
    &&& y.is_default == (if b.is_default is Some { b.is_default } else { x.is_default })
}
//@ fn svd-rs/src/enumeratedvalue.rs EnumeratedValue::modify_from -> r
    ensures
        r is Ok ==> ev_modified(*old(self), builder, *final(self)) && ev_ok(*final(self), lvl),
        r is Err ==> ev_modified(*old(self), builder, *final(self)) && !(ev_ok(*final(self), lvl)),
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- EnumeratedValues
// what a modification leaves behind
pub open spec fn evs_modified(x: EnumeratedValues, b: EnumeratedValuesBuilder, y: EnumeratedValues) -> bool {
    &&& if b.derived_from is Some { y.name is None } else { y.name == text_mod(x.name, b.name) }
    &&& if b.derived_from is Some { y.usage is None } else { y.usage == (if b.usage is Some { b.usage } else { x.usage }) }
    &&& y.derived_from == (if b.derived_from is Some { b.derived_from } else { x.derived_from })
    &&& if b.derived_from is Some { y.values@.len() == 0 } else { y.values == or_old(b.values, x.values) }
}
//@ fn svd-rs/src/enumeratedvalues.rs EnumeratedValues::modify_from -> r
    ensures
        r is Ok ==> evs_modified(*old(self), builder, *final(self)) && evs_ok(*final(self), lvl),
        r is Err ==> evs_modified(*old(self), builder, *final(self)) && !(evs_ok(*final(self), lvl)),
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- FieldInfo
pub open spec fn pos_mod(o: BitRange, b: FieldInfoBuilder) -> BitRange {
    let p = or_old(b.bit_range, o);
    BitRange { offset: or_old(b.bit_offset, p.offset), width: or_old(b.bit_width, p.width), range_type: p.range_type }
}
// what a modification leaves behind
pub open spec fn field_modified(x: FieldInfo, b: FieldInfoBuilder, y: FieldInfo) -> bool {
    &&& y.name == or_old(b.name, x.name)
    &&& y.description == text_mod(x.description, b.description)
    &&& y.bit_range == pos_mod(x.bit_range, b)
    &&& y.access == (if b.access is Some { b.access } else { x.access })
    &&& if b.derived_from is Some { y.modified_write_values is None } else { y.modified_write_values == (if b.modified_write_values is Some { b.modified_write_values } else { x.modified_write_values }) }
    &&& if b.derived_from is Some { y.write_constraint is None } else { y.write_constraint == (if b.write_constraint is Some { b.write_constraint } else { x.write_constraint }) }
    &&& b.derived_from is None ==> y.read_action == (if b.read_action is Some { b.read_action } else { x.read_action })
    &&& if b.derived_from is Some { y.enumerated_values@.len() == 0 } else { y.enumerated_values == or_old(b.enumerated_values, x.enumerated_values) }
    &&& y.derived_from == (if b.derived_from is Some { b.derived_from } else { x.derived_from })
}
//@ fn svd-rs/src/field.rs FieldInfo::modify_from -> r
    ensures
        r is Ok ==> field_modified(*old(self), builder, *final(self)) && field_ok(*final(self), lvl),
        r is Err ==> field_modified(*old(self), builder, *final(self)) && !(field_ok(*final(self), lvl)),
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- RegisterInfo
// what a modification leaves behind
pub open spec fn reg_modified(x: RegisterInfo, b: RegisterInfoBuilder, y: RegisterInfo) -> bool {
    &&& y.name == or_old(b.name, x.name)
    &&& y.display_name == text_mod(x.display_name, b.display_name)
    &&& y.description == text_mod(x.description, b.description)
    &&& y.alternate_group == text_mod(x.alternate_group, b.alternate_group)
    &&& y.alternate_register == text_mod(x.alternate_register, b.alternate_register)
    &&& y.address_offset == or_old(b.address_offset, x.address_offset)
    &&& if b.derived_from is Some { y.properties == no_properties() } else { y.properties == rp_modified(x.properties, b.properties) }
    &&& if b.derived_from is Some { y.datatype is None } else { y.datatype == (if b.datatype is Some { b.datatype } else { x.datatype }) }
    &&& if b.derived_from is Some { y.modified_write_values is None } else { y.modified_write_values == (if b.modified_write_values is Some { b.modified_write_values } else { x.modified_write_values }) }
    &&& if b.derived_from is Some { y.write_constraint is None } else { y.write_constraint == (if b.write_constraint is Some { b.write_constraint } else { x.write_constraint }) }
    &&& b.derived_from is None ==> y.read_action == (if b.read_action is Some { b.read_action } else { x.read_action })
    &&& if b.derived_from is Some { y.fields is None } else { y.fields == opt_list_mod(x.fields, b.fields) }
    &&& y.derived_from == (if b.derived_from is Some { b.derived_from } else { x.derived_from })
}
//@ fn svd-rs/src/register.rs RegisterInfo::modify_from -> r
    ensures
        r is Ok ==> reg_modified(*old(self), builder, *final(self)) && reg_ok(*final(self), lvl) && (builder.derived_from is None ==> rp_valid(final(self).properties, lvl) is Ok),
        r is Err ==> reg_modified(*old(self), builder, *final(self)) && !(reg_ok(*final(self), lvl)) || !((builder.derived_from is None ==> rp_valid(rp_modified(old(self).properties, builder.properties), lvl) is Ok)),
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- ClusterInfo
// what a modification leaves behind
pub open spec fn cl_modified(x: ClusterInfo, b: ClusterInfoBuilder, y: ClusterInfo) -> bool {
    &&& y.name == or_old(b.name, x.name)
    &&& y.description == text_mod(x.description, b.description)
    &&& y.alternate_cluster == text_mod(x.alternate_cluster, b.alternate_cluster)
    &&& y.header_struct_name == text_mod(x.header_struct_name, b.header_struct_name)
    &&& y.address_offset == or_old(b.address_offset, x.address_offset)
    &&& if b.derived_from is Some { y.default_register_properties == no_properties() } else { y.default_register_properties == rp_modified(x.default_register_properties, b.default_register_properties) }
    &&& if b.derived_from is Some { y.children@.len() == 0 } else { y.children == or_old(b.children, x.children) }
    &&& y.derived_from == (if b.derived_from is Some { b.derived_from } else { x.derived_from })
}
//@ fn svd-rs/src/cluster.rs ClusterInfo::modify_from -> r
    ensures
        r is Ok ==> cl_modified(*old(self), builder, *final(self)) && cl_ok(*final(self), lvl) && (builder.derived_from is None ==> rp_valid(final(self).default_register_properties, lvl) is Ok),
        r is Err ==> cl_modified(*old(self), builder, *final(self)) && !(cl_ok(*final(self), lvl)) || !((builder.derived_from is None ==> rp_valid(rp_modified(old(self).default_register_properties, builder.default_register_properties), lvl) is Ok)),
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- PeripheralInfo
// what a modification leaves behind
pub open spec fn per_modified(x: PeripheralInfo, b: PeripheralInfoBuilder, y: PeripheralInfo) -> bool {
    &&& y.name == or_old(b.name, x.name)
    &&& y.display_name == text_mod(x.display_name, b.display_name)
    &&& y.version == text_mod(x.version, b.version)
    &&& y.description == text_mod(x.description, b.description)
    &&& y.alternate_peripheral == text_mod(x.alternate_peripheral, b.alternate_peripheral)
    &&& y.group_name == text_mod(x.group_name, b.group_name)
    &&& y.prepend_to_name == text_mod(x.prepend_to_name, b.prepend_to_name)
    &&& y.append_to_name == text_mod(x.append_to_name, b.append_to_name)
    &&& y.header_struct_name == text_mod(x.header_struct_name, b.header_struct_name)
    &&& y.base_address == or_old(b.base_address, x.base_address)
    &&& if b.derived_from is Some { y.default_register_properties == no_properties() } else { y.default_register_properties == rp_modified(x.default_register_properties, b.default_register_properties) }
    &&& if b.derived_from is Some { y.address_block is None } else { y.address_block == (if b.address_block is Some { b.address_block } else { x.address_block }) }
    &&& y.interrupt == or_old(b.interrupt, x.interrupt)
    &&& if b.derived_from is Some { y.registers is None } else { y.registers == opt_list_mod(x.registers, b.registers) }
    &&& y.derived_from == (if b.derived_from is Some { b.derived_from } else { x.derived_from })
}
//@ fn svd-rs/src/peripheral.rs PeripheralInfo::modify_from -> r
    ensures
        r is Ok ==> per_modified(*old(self), builder, *final(self)) && per_ok(*final(self), lvl) && (builder.derived_from is None ==> rp_valid(final(self).default_register_properties, lvl) is Ok),
        r is Err ==> per_modified(*old(self), builder, *final(self)) && !(per_ok(*final(self), lvl)) || !((builder.derived_from is None ==> rp_valid(rp_modified(old(self).default_register_properties, builder.default_register_properties), lvl) is Ok)),
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
// ---------------------------------------------------------------- Device
// what a modification leaves behind
pub open spec fn dev_modified(x: Device, b: DeviceBuilder, y: Device) -> bool {
    &&& y.vendor == text_mod(x.vendor, b.vendor)
    &&& y.vendor_id == text_mod(x.vendor_id, b.vendor_id)
    &&& y.name == or_old(b.name, x.name)
    &&& y.series == text_mod(x.series, b.series)
    &&& y.version == or_old(b.version, x.version)
    &&& y.description == or_old(b.description, x.description)
    &&& y.license_text == text_mod(x.license_text, b.license_text)
    &&& y.cpu == (if b.cpu is Some { b.cpu } else { x.cpu })
    &&& y.header_system_filename == text_mod(x.header_system_filename, b.header_system_filename)
    &&& y.header_definitions_prefix == text_mod(x.header_definitions_prefix, b.header_definitions_prefix)
    &&& y.address_unit_bits == or_old(b.address_unit_bits, x.address_unit_bits)
    &&& y.width == or_old(b.width, x.width)
    &&& y.default_register_properties == rp_modified(x.default_register_properties, b.default_register_properties)
    &&& y.peripherals == or_old(b.peripherals, x.peripherals)
    &&& y.xmlns_xs == or_old(b.xmlns_xs, x.xmlns_xs)
    &&& y.no_namespace_schema_location == or_old(b.no_namespace_schema_location, x.no_namespace_schema_location)
    &&& y.schema_version == or_old(b.schema_version, x.schema_version)
}
//@ fn svd-rs/src/device.rs Device::modify_from -> r
    ensures
        r is Ok ==> dev_modified(*old(self), builder, *final(self)) && dev_ok(*final(self), lvl) && (rp_valid(final(self).default_register_properties, lvl) is Ok),
        r is Err ==> dev_modified(*old(self), builder, *final(self)) && !(dev_ok(*final(self), lvl)) || !((rp_valid(rp_modified(old(self).default_register_properties, builder.default_register_properties), lvl) is Ok)),
//@ opt assign-if
//@ start
    broadcast use crate::spec::lemma_empty_vec;
//@ endfn
