//! Random element generation. Elements are made by setting public properties directly, so the
//! generators do not depend on the builders they are used to test.
use crate::ctx::Rng;
use svd_parser::svd;
use svd::*;

pub const L: ValidateLevel = ValidateLevel::Disabled;
pub const LVLS: [ValidateLevel; 3] = [ValidateLevel::Disabled, ValidateLevel::Weak, ValidateLevel::Strict];
pub fn lvl(r: &mut Rng) -> ValidateLevel { *r.pick(&LVLS) }

pub fn text(r: &mut Rng) -> String {
    const W: [&str; 14] = ["a", "Bc", "x < y", "&amp", "don't", "\"q\"", "é", "日本", "0x10", "%s", "[%s]", "a\nb", "]]>", "z9_"];
    let n = 1 + r.us(3);
    let mut v = vec![];
    for _ in 0..n { v.push(*r.pick(&W)); }
    v.join(" ")
}
/// plain text without placeholders
pub fn ptext(r: &mut Rng) -> String {
    const W: [&str; 8] = ["a", "Bc", "x < y", "don't", "é", "日本", "0x10", "z9_"];
    let n = 1 + r.us(3);
    let mut v = vec![];
    for _ in 0..n { v.push(*r.pick(&W)); }
    v.join(" ")
}
pub fn otext(r: &mut Rng) -> Option<String> { r.opt(text) }
pub fn ident(r: &mut Rng) -> String {
    const H: &[u8] = b"ABab_Zz";
    const T: &[u8] = b"ABab_Zz019";
    let mut s = String::new();
    s.push(*r.pick(H) as char);
    for _ in 0..r.us(4) { s.push(*r.pick(T) as char); }
    s
}
pub fn arr_ident(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!("{}[%s]", ident(r)),
        1 => format!("{}%s{}", ident(r), ident(r)),
        2 => format!("%s{}", ident(r)),
        _ => format!("{}%s", ident(r)),
    }
}
pub fn access(r: &mut Rng) -> Access { *r.pick(&[Access::ReadOnly, Access::ReadWrite, Access::ReadWriteOnce, Access::WriteOnce, Access::WriteOnly]) }
pub fn protection(r: &mut Rng) -> Protection { *r.pick(&[Protection::Secure, Protection::NonSecure, Protection::Privileged]) }
pub const MWV: [ModifiedWriteValues; 9] = [ModifiedWriteValues::OneToClear, ModifiedWriteValues::OneToSet, ModifiedWriteValues::OneToToggle, ModifiedWriteValues::ZeroToClear, ModifiedWriteValues::ZeroToSet, ModifiedWriteValues::ZeroToToggle, ModifiedWriteValues::Clear, ModifiedWriteValues::Set, ModifiedWriteValues::Modify];
pub fn mwv(r: &mut Rng) -> ModifiedWriteValues { *r.pick(&MWV) }
pub const RA: [ReadAction; 4] = [ReadAction::Clear, ReadAction::Set, ReadAction::Modify, ReadAction::ModifyExternal];
pub fn ra(r: &mut Rng) -> ReadAction { *r.pick(&RA) }
pub const DT: [DataType; 16] = [DataType::U8, DataType::U16, DataType::U32, DataType::U64, DataType::I8, DataType::I16, DataType::I32, DataType::I64, DataType::U8Ptr, DataType::U16Ptr, DataType::U32Ptr, DataType::U64Ptr, DataType::I8Ptr, DataType::I16Ptr, DataType::I32Ptr, DataType::I64Ptr];
pub fn dt(r: &mut Rng) -> DataType { *r.pick(&DT) }
pub fn usage(r: &mut Rng) -> Usage { *r.pick(&[Usage::Read, Usage::Write, Usage::ReadWrite]) }
pub fn endian(r: &mut Rng) -> Endian { *r.pick(&[Endian::Little, Endian::Big, Endian::Selectable, Endian::Other]) }
pub fn abu(r: &mut Rng) -> AddressBlockUsage { *r.pick(&[AddressBlockUsage::Registers, AddressBlockUsage::Buffer, AddressBlockUsage::Reserved]) }

/// register properties that validate at weak level
pub fn props(r: &mut Rng) -> RegisterProperties {
    let mut p = any_props(r);
    if let (Some(s), Some(v)) = (p.size, p.reset_value) {
        p.reset_value = Some(if s == 0 { 0 } else if s < 64 { v & ((1u64 << s) - 1) } else { v });
    }
    p
}
pub fn any_props(r: &mut Rng) -> RegisterProperties {
    let mut p = RegisterProperties::default();
    p.size = r.opt(|r| if r.coin() { *r.pick(&[8u32, 16, 32, 64]) } else { r.num32() });
    p.access = r.opt(access);
    p.protection = r.opt(protection);
    p.reset_value = r.opt(|r| r.num64());
    p.reset_mask = r.opt(|r| r.num64());
    p
}
pub fn range_ok(r: &mut Rng) -> BitRange {
    let width = 1 + r.below(64) as u32;
    let offset = if r.chance(1, 10) { r.num32().min(u32::MAX - 70) } else { r.below(64) as u32 };
    let t = *r.pick(&[BitRangeType::BitRange, BitRangeType::OffsetWidth, BitRangeType::MsbLsb]);
    BitRange { offset, width, range_type: t }
}
pub fn ev(r: &mut Rng, max: u64) -> EnumeratedValue {
    let mut e = EnumeratedValue::builder().name("n".into()).build(L).unwrap();
    e.name = ident(r);
    e.description = otext(r);
    e.value = r.opt(|r| { let v = r.num64(); if max == u64::MAX { v } else { v % (max + 1) } });
    e.is_default = r.opt(|r| r.coin());
    if e.value.is_none() { e.is_default = Some(true); }
    e
}
pub fn any_ev(r: &mut Rng) -> EnumeratedValue {
    let mut e = EnumeratedValue::builder().name("n".into()).build(L).unwrap();
    e.name = ident(r);
    e.description = otext(r);
    e.value = r.opt(|r| r.num64());
    e.is_default = r.opt(|r| r.coin());
    e
}
pub fn evs(r: &mut Rng, max: u64) -> EnumeratedValues {
    let mut e = EnumeratedValues::builder().build(L).unwrap();
    e.name = r.opt(ident);
    e.usage = r.opt(usage);
    e.derived_from = if r.chance(1, 4) { Some(ident(r)) } else { None };
    let n = if e.derived_from.is_some() { r.us(2) } else { 1 + r.us(3) };
    e.values = (0..n).map(|_| ev(r, max)).collect();
    e
}
pub fn any_evs(r: &mut Rng) -> EnumeratedValues {
    let mut e = EnumeratedValues::builder().build(L).unwrap();
    e.name = r.opt(ident);
    e.usage = r.opt(usage);
    e.derived_from = if r.chance(1, 3) { Some(ident(r)) } else { None };
    e.values = (0..r.us(3)).map(|_| any_ev(r)).collect();
    e
}
pub fn wc(r: &mut Rng, max: u64) -> WriteConstraint {
    match r.below(3) {
        0 => WriteConstraint::WriteAsRead(r.coin()),
        1 => WriteConstraint::UseEnumeratedValues(r.coin()),
        _ => {
            let (mut a, mut b) = (r.num64(), r.num64());
            if max != u64::MAX { a %= max + 1; b %= max + 1; }
            WriteConstraint::Range(WriteConstraintRange { min: a.min(b), max: a.max(b) })
        }
    }
}
pub fn any_wc(r: &mut Rng) -> WriteConstraint {
    match r.below(5) {
        0 => WriteConstraint::WriteAsRead(r.coin()),
        1 => WriteConstraint::UseEnumeratedValues(r.coin()),
        _ => WriteConstraint::Range(WriteConstraintRange { min: r.num64(), max: r.num64() }),
    }
}
pub fn field_base(name: &str, br: BitRange) -> FieldInfo {
    let mut f = FieldInfo::builder().name("n".into()).bit_range(br).build(L).unwrap();
    f.name = name.into();
    f.bit_range = br;
    f
}
/// a field valid at weak level
pub fn field_info(r: &mut Rng) -> FieldInfo {
    let br = range_ok(r);
    let max = if br.width >= 64 { u64::MAX } else { (1u64 << br.width) - 1 };
    let n = ident(r);
    let mut f = field_base(&n, br);
    f.description = otext(r);
    f.access = r.opt(access);
    f.modified_write_values = r.opt(mwv);
    f.write_constraint = r.opt(|r| wc(r, max));
    f.read_action = r.opt(ra);
    f.enumerated_values = (0..r.us(3)).map(|_| evs(r, max)).collect();
    f.derived_from = if r.chance(1, 5) { Some(ident(r)) } else { None };
    f
}
pub fn any_field_info(r: &mut Rng) -> FieldInfo {
    let br = BitRange { offset: r.num32(), width: if r.coin() { r.below(70) as u32 } else { r.num32() }, range_type: BitRangeType::OffsetWidth };
    let n = ident(r);
    let mut f = field_base(&n, br);
    f.description = otext(r);
    f.access = r.opt(access);
    f.modified_write_values = r.opt(mwv);
    f.write_constraint = r.opt(any_wc);
    f.read_action = r.opt(ra);
    f.enumerated_values = (0..r.us(3)).map(|_| any_evs(r)).collect();
    f.derived_from = if r.chance(1, 4) { Some(ident(r)) } else { None };
    f
}
pub fn dim_base(dim: u32, inc: u32) -> DimElement {
    let mut d = DimElement::builder().dim(1).dim_increment(1).build(L).unwrap();
    d.dim = dim;
    d.dim_increment = inc;
    d
}
/// indexes that are expressible: no dash or comma, not blank, trimmed
pub fn index_list(r: &mut Rng, n: usize) -> Vec<String> {
    if n == 0 { return vec![]; }
    match r.below(5) {
        0 => { let s = r.below(20); (0..n as u64).map(|i| (s + i).to_string()).collect() }
        1 => (0..n).map(|i| ((b'A' + (i as u8 % 26)) as char).to_string()).collect(),
        2 => (0..n).map(|i| format!("{:02}", i)).collect(),
        3 => (0..n).rev().map(|i| i.to_string()).collect(),
        _ => (0..n).map(|i| format!("{}{}", ident(r), i)).collect(),
    }
}
pub fn dim(r: &mut Rng) -> DimElement {
    let n = 1 + r.us(4);
    let mut d = dim_base(n as u32, r.below(64) as u32);
    if r.coin() { d.dim_index = Some(index_list(r, n)); }
    d.dim_name = if r.chance(1, 4) { Some(ident(r)) } else { None };
    if r.chance(1, 4) {
        d.dim_array_index = Some(DimArrayIndex {
            header_enum_name: r.opt(ident),
            values: (0..r.us(3)).map(|_| { let mut e = ev(r, 6); if r.coin() { e.value = Some(r.below(5)); } e }).collect(),
        });
    }
    d
}
pub fn field(r: &mut Rng) -> Field {
    let mut f = field_info(r);
    if r.chance(1, 4) { f.name = arr_ident(r); Field::Array(f, dim(r)) } else { Field::Single(f) }
}
pub fn reg_base(name: &str, off: u32) -> RegisterInfo {
    let mut x = RegisterInfo::builder().name("n".into()).address_offset(0).build(L).unwrap();
    x.name = name.into();
    x.address_offset = off;
    x
}
pub fn register_info(r: &mut Rng) -> RegisterInfo {
    let n = ident(r);
    let mut x = reg_base(&n, r.num32());
    x.display_name = otext(r);
    x.description = otext(r);
    x.alternate_group = r.opt(ident);
    x.alternate_register = r.opt(ident);
    x.properties = props(r);
    x.datatype = r.opt(dt);
    x.modified_write_values = r.opt(mwv);
    x.write_constraint = r.opt(|r| wc(r, u64::MAX));
    x.read_action = r.opt(ra);
    x.fields = r.opt(|r| (0..1 + r.us(3)).map(|_| field(r)).collect());
    x.derived_from = if r.chance(1, 5) { Some(ident(r)) } else { None };
    x
}
pub fn register(r: &mut Rng) -> Register {
    let mut x = register_info(r);
    if r.chance(1, 4) { x.name = arr_ident(r); x.address_offset %= 1 << 20; Register::Array(x, dim(r)) } else { Register::Single(x) }
}
pub fn cluster_base(name: &str, off: u32) -> ClusterInfo {
    let mut x = ClusterInfo::builder().name("n".into()).address_offset(0).children(vec![]).build(L).unwrap();
    x.name = name.into();
    x.address_offset = off;
    x
}
pub fn cluster_info(r: &mut Rng, depth: u32) -> ClusterInfo {
    let n = ident(r);
    let mut x = cluster_base(&n, r.num32());
    x.description = otext(r);
    x.alternate_cluster = r.opt(ident);
    x.header_struct_name = r.opt(ident);
    x.default_register_properties = props(r);
    x.children = (0..r.us(4)).map(|_| rc(r, depth)).collect();
    x.derived_from = if r.chance(1, 5) { Some(ident(r)) } else { None };
    x
}
pub fn cluster(r: &mut Rng, depth: u32) -> Cluster {
    let mut x = cluster_info(r, depth);
    if r.chance(1, 4) { x.name = arr_ident(r); x.address_offset %= 1 << 20; Cluster::Array(x, dim(r)) } else { Cluster::Single(x) }
}
pub fn rc(r: &mut Rng, depth: u32) -> RegisterCluster {
    if depth > 0 && r.chance(2, 5) { RegisterCluster::Cluster(cluster(r, depth - 1)) } else { RegisterCluster::Register(register(r)) }
}
pub fn ab(r: &mut Rng) -> AddressBlock {
    let mut b = AddressBlock::builder().offset(0).size(0).usage(AddressBlockUsage::Registers).build(L).unwrap();
    b.offset = r.num32();
    b.size = r.num32();
    b.usage = abu(r);
    b.protection = r.opt(protection);
    b
}
pub fn interrupt(r: &mut Rng) -> Interrupt {
    let mut b = Interrupt::builder().name("n".into()).value(0).build(L).unwrap();
    b.name = ident(r);
    b.description = otext(r);
    b.value = r.num32();
    b
}
pub fn per_base(name: &str, base: u64) -> PeripheralInfo {
    let mut x = PeripheralInfo::builder().name("n".into()).base_address(0).build(L).unwrap();
    x.name = name.into();
    x.base_address = base;
    x
}
pub fn per_info(r: &mut Rng, depth: u32) -> PeripheralInfo {
    let n = ident(r);
    let mut x = per_base(&n, r.num64());
    x.display_name = otext(r);
    x.version = otext(r);
    x.description = otext(r);
    x.alternate_peripheral = r.opt(ident);
    x.group_name = otext(r);
    x.prepend_to_name = r.opt(ident);
    x.append_to_name = r.opt(ident);
    x.header_struct_name = r.opt(ident);
    x.default_register_properties = props(r);
    x.address_block = r.opt(|r| (0..1 + r.us(2)).map(|_| ab(r)).collect());
    x.interrupt = (0..r.us(3)).map(|_| interrupt(r)).collect();
    x.registers = r.opt(|r| (0..r.us(4)).map(|_| rc(r, depth)).collect());
    x.derived_from = if r.chance(1, 5) { Some(ident(r)) } else { None };
    x
}
pub fn peripheral(r: &mut Rng, depth: u32) -> Peripheral {
    let mut x = per_info(r, depth);
    if r.chance(1, 4) { x.name = arr_ident(r); x.base_address %= 1 << 40; Peripheral::Array(x, dim(r)) } else { Peripheral::Single(x) }
}
pub fn cpu(r: &mut Rng) -> Cpu {
    let mut c = Cpu::builder().name("n".into()).revision("r".into()).endian(Endian::Little).mpu_present(false).fpu_present(false).nvic_priority_bits(0).has_vendor_systick(false).build(L).unwrap();
    c.name = ident(r);
    c.revision = text(r);
    c.endian = endian(r);
    c.mpu_present = r.coin();
    c.fpu_present = r.coin();
    c.fpu_double_precision = r.opt(|r| r.coin());
    c.dsp_present = r.opt(|r| r.coin());
    c.icache_present = r.opt(|r| r.coin());
    c.dcache_present = r.opt(|r| r.coin());
    c.itcm_present = r.opt(|r| r.coin());
    c.dtcm_present = r.opt(|r| r.coin());
    c.vtor_present = r.opt(|r| r.coin());
    c.nvic_priority_bits = r.num32();
    c.has_vendor_systick = r.coin();
    c.device_num_interrupts = r.opt(|r| r.num32());
    c.sau_num_regions = r.opt(|r| r.num32());
    c
}
pub fn dev_base(name: &str) -> Device {
    let mut d = Device::builder().name("n".into()).peripherals(vec![]).build(L).unwrap();
    d.name = name.into();
    d
}
pub fn device(r: &mut Rng, depth: u32) -> Device {
    let n = ident(r);
    let mut d = dev_base(&n);
    d.vendor = otext(r);
    d.vendor_id = otext(r);
    d.series = otext(r);
    d.version = text(r);
    d.description = if r.chance(1, 6) { String::new() } else { text(r) };
    d.license_text = otext(r);
    d.cpu = r.opt(cpu);
    d.header_system_filename = otext(r);
    d.header_definitions_prefix = otext(r);
    d.address_unit_bits = r.num32();
    d.width = r.num32();
    d.default_register_properties = props(r);
    d.peripherals = (0..1 + r.us(3)).map(|_| peripheral(r, depth)).collect();
    d.xmlns_xs = if r.coin() { "http://www.w3.org/2001/XMLSchema-instance".into() } else { "http://x.example/y".into() };
    d.no_namespace_schema_location = if r.coin() { "CMSIS-SVD_Schema_1_1.xsd".into() } else { ident(r) };
    d.schema_version = if r.coin() { "1.1".into() } else { ident(r) };
    d
}
