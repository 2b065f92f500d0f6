//! Builders, modifications, deriving.
use crate::ctx::*;
use crate::gen::*;
use svd_parser::svd;
use svd::*;
use svd::{addressblock::AddressBlockBuilder, interrupt::InterruptBuilder, cpu::CpuBuilder};

fn n2(o: &Option<String>) -> Option<String> { o.clone().filter(|s| !s.is_empty()) }
fn etext(r: &mut Rng) -> String { if r.chance(1, 5) { String::new() } else { text(r) } }
fn oet(r: &mut Rng) -> Option<String> { r.opt(etext) }

/// name of the kinds of property a builder has
/// `o`: optional text, `p`: optional plain value, `m`: mandatory value
macro_rules! def_builder {
    ($fun:ident, $modfun:ident, $T:ty, $B:ty, $base:expr,
     text[$($o:ident),*], plain[$($p:ident : $pt:ty = $pg:expr),*], mand[$($m:ident : $mt:ty = $mg:expr),*],
     extra $extra:ident) => {
        #[derive(Clone, Debug, Default)]
        #[allow(non_camel_case_types)]
        pub struct $fun { $($o: Option<String>,)* $($p: Option<$pt>,)* $($m: Option<$mt>,)* }
        impl $fun {
            /// random sequence of setter calls; returns the builder, the values last set, and the log
            fn random(r: &mut Rng, omit: bool) -> ($B, Self, String) {
                let mut b: $B = <$T>::builder();
                let mut m = Self::default();
                let mut log = String::new();
                let rounds = 1 + r.us(2);
                for round in 0..rounds {
                    let mut steps: Vec<Box<dyn Fn(&mut Rng, $B, &mut Self, &mut String) -> $B>> = vec![];
                    $(steps.push(Box::new(|r, b, m, log| { let v = oet(r); log.push_str(&format!(".{}({:?})", stringify!($o), v)); m.$o = v.clone(); b.$o(v) }));)*
                    $(steps.push(Box::new(|r, b, m, log| { let v: Option<$pt> = r.opt($pg); log.push_str(&format!(".{}({:?})", stringify!($p), v)); m.$p = v.clone(); b.$p(v) }));)*
                    $(steps.push(Box::new(|r, b, m, log| { let v: $mt = ($mg)(r); log.push_str(&format!(".{}({:?})", stringify!($m), v)); m.$m = Some(v.clone()); b.$m(v) }));)*
                    r.shuffle(&mut steps);
                    for s in &steps { if (round == 0 && !omit && !r.chance(1, 12)) || r.coin() { b = s(r, b, &mut m, &mut log); } }
                }
                (b, m, log)
            }
        }
        fn $modfun(x: &mut $T, m: &$fun) {
            $(if m.$o.is_some() { x.$o = n2(&m.$o); })*
            $(if m.$p.is_some() { $extra!(x, $p, m.$p); })*
            $(if let Some(v) = &m.$m { $extra!(@m x, $m, v.clone()); })*
        }
    };
}
macro_rules! plainset { ($x:ident, $f:ident, $v:expr) => { $x.$f = $v.clone() }; (@m $x:ident, $f:ident, $v:expr) => { $x.$f = $v }; }

def_builder!(EvB, ev_mod, EnumeratedValue, EnumeratedValueBuilder, (), text[description], plain[value: u64 = |r: &mut Rng| r.num64(), is_default: bool = |r: &mut Rng| r.coin()], mand[name: String = |r: &mut Rng| ident(r)], extra plainset);
def_builder!(EvsB, evs_mod, EnumeratedValues, EnumeratedValuesBuilder, (), text[name], plain[usage: Usage = usage, derived_from: String = ident], mand[values: Vec<EnumeratedValue> = |r: &mut Rng| (0..r.us(3)).map(|_| any_ev(r)).collect::<Vec<_>>()], extra plainset);
def_builder!(IntB, int_mod, Interrupt, InterruptBuilder, (), text[description], plain[], mand[name: String = |r: &mut Rng| ident(r), value: u32 = |r: &mut Rng| r.num32()], extra plainset);
def_builder!(AbB, ab_mod, AddressBlock, AddressBlockBuilder, (), text[], plain[protection: Protection = protection], mand[offset: u32 = |r: &mut Rng| r.num32(), size: u32 = |r: &mut Rng| r.num32(), usage: AddressBlockUsage = |r: &mut Rng| abu(r)], extra plainset);
def_builder!(CpuB, cpu_mod, Cpu, CpuBuilder, (), text[], plain[fpu_double_precision: bool = |r: &mut Rng| r.coin(), dsp_present: bool = |r: &mut Rng| r.coin(), icache_present: bool = |r: &mut Rng| r.coin(), dcache_present: bool = |r: &mut Rng| r.coin(), itcm_present: bool = |r: &mut Rng| r.coin(), dtcm_present: bool = |r: &mut Rng| r.coin(), vtor_present: bool = |r: &mut Rng| r.coin(), device_num_interrupts: u32 = |r: &mut Rng| r.num32(), sau_num_regions: u32 = |r: &mut Rng| r.num32()],
    mand[name: String = |r: &mut Rng| ident(r), revision: String = |r: &mut Rng| ident(r), endian: Endian = |r: &mut Rng| endian(r), mpu_present: bool = |r: &mut Rng| r.coin(), fpu_present: bool = |r: &mut Rng| r.coin(), nvic_priority_bits: u32 = |r: &mut Rng| r.num32(), has_vendor_systick: bool = |r: &mut Rng| r.coin()], extra plainset);
def_builder!(DimB, dim_mod, DimElement, DimElementBuilder, (), text[dim_name], plain[dim_index: Vec<String> = |r: &mut Rng| { let n = r.us(3); index_list(r, n) }, dim_array_index: DimArrayIndex = |r: &mut Rng| DimArrayIndex { header_enum_name: r.opt(ident), values: vec![] }], mand[dim: u32 = |r: &mut Rng| r.num32(), dim_increment: u32 = |r: &mut Rng| r.num32()], extra plainset);
def_builder!(FieldB, field_mod, FieldInfo, FieldInfoBuilder, (), text[description], plain[access: Access = access, modified_write_values: ModifiedWriteValues = mwv, write_constraint: WriteConstraint = any_wc, read_action: ReadAction = ra, derived_from: String = ident], mand[name: String = |r: &mut Rng| ident(r), bit_range: BitRange = |r: &mut Rng| range_ok(r), enumerated_values: Vec<EnumeratedValues> = |r: &mut Rng| (0..r.us(3)).map(|_| any_evs(r)).collect::<Vec<_>>()], extra plainset);
def_builder!(RegB, reg_mod, RegisterInfo, RegisterInfoBuilder, (), text[display_name, description, alternate_group, alternate_register], plain[datatype: DataType = dt, modified_write_values: ModifiedWriteValues = mwv, write_constraint: WriteConstraint = any_wc, read_action: ReadAction = ra, fields: Vec<Field> = |r: &mut Rng| (0..r.us(3)).map(|_| field(r)).collect::<Vec<_>>(), derived_from: String = ident], mand[name: String = |r: &mut Rng| ident(r), address_offset: u32 = |r: &mut Rng| r.num32(), properties: RegisterProperties = |r: &mut Rng| any_props(r)], extra plainset);
def_builder!(ClB, cl_mod, ClusterInfo, ClusterInfoBuilder, (), text[description, alternate_cluster, header_struct_name], plain[derived_from: String = ident], mand[name: String = |r: &mut Rng| ident(r), address_offset: u32 = |r: &mut Rng| r.num32(), default_register_properties: RegisterProperties = |r: &mut Rng| any_props(r), children: Vec<RegisterCluster> = |r: &mut Rng| (0..r.us(3)).map(|_| rc(r, 1)).collect::<Vec<_>>()], extra plainset);
macro_rules! perset { ($x:ident, interrupt, $v:expr) => { $x.interrupt = $v.clone().unwrap() }; ($x:ident, $f:ident, $v:expr) => { $x.$f = $v.clone() }; (@m $x:ident, $f:ident, $v:expr) => { $x.$f = $v }; }
def_builder!(PerB, per_mod, PeripheralInfo, PeripheralInfoBuilder, (), text[display_name, version, description, alternate_peripheral, group_name, prepend_to_name, append_to_name, header_struct_name], plain[address_block: Vec<AddressBlock> = |r: &mut Rng| (0..r.us(3)).map(|_| ab(r)).collect::<Vec<_>>(), interrupt: Vec<Interrupt> = |r: &mut Rng| (0..r.us(3)).map(|_| interrupt(r)).collect::<Vec<_>>(), registers: Vec<RegisterCluster> = |r: &mut Rng| (0..r.us(3)).map(|_| rc(r, 1)).collect::<Vec<_>>(), derived_from: String = ident], mand[name: String = |r: &mut Rng| ident(r), base_address: u64 = |r: &mut Rng| r.num64(), default_register_properties: RegisterProperties = |r: &mut Rng| any_props(r)], extra perset);
def_builder!(DevB, dev_mod, Device, DeviceBuilder, (), text[vendor, vendor_id, series, license_text, header_system_filename, header_definitions_prefix], plain[cpu: Cpu = cpu], mand[name: String = |r: &mut Rng| ident(r), version: String = |r: &mut Rng| ident(r), description: String = |r: &mut Rng| ident(r), address_unit_bits: u32 = |r: &mut Rng| r.num32(), width: u32 = |r: &mut Rng| r.num32(), default_register_properties: RegisterProperties = |r: &mut Rng| any_props(r), peripherals: Vec<Peripheral> = |r: &mut Rng| (0..r.us(2)).map(|_| peripheral(r, 1)).collect::<Vec<_>>(), xmlns_xs: String = |r: &mut Rng| ident(r), no_namespace_schema_location: String = |r: &mut Rng| ident(r), schema_version: String = |r: &mut Rng| ident(r)], extra plainset);

/// register properties of an element, where it has them
trait PropsOk { fn props_ok(&self, _l: ValidateLevel) -> bool { true } }
impl PropsOk for EnumeratedValue {}
impl PropsOk for EnumeratedValues {}
impl PropsOk for Interrupt {}
impl PropsOk for AddressBlock {}
impl PropsOk for Cpu {}
impl PropsOk for DimElement {}
impl PropsOk for FieldInfo {}
impl PropsOk for RegisterInfo { fn props_ok(&self, l: ValidateLevel) -> bool { self.properties.validate(l).is_ok() } }
impl PropsOk for ClusterInfo { fn props_ok(&self, l: ValidateLevel) -> bool { self.default_register_properties.validate(l).is_ok() } }
impl PropsOk for PeripheralInfo { fn props_ok(&self, l: ValidateLevel) -> bool { self.default_register_properties.validate(l).is_ok() } }
/// compares a built element with the expected one; `norm` maps empty optional text to none on both sides
fn judge<T: PartialEq + std::fmt::Debug + Clone>(got: Result<T, SvdError>, missing: &[&str], want: Option<T>, valid: impl Fn(&T) -> bool, norm: impl Fn(&mut T)) -> Result<(), String> {
    match got {
        Err(SvdError::Build(BuildError::Uninitialized(n))) => ensure(missing.contains(&n.as_str()), || format!("reports {n:?} as not set; not set: {missing:?}")),
        // an empty optional name may be stored as it is, and is then no valid name
        Err(e) if format!("{e:?}").contains("Invalid(\"\",") => Ok(()),
        Err(e) => match want {
            Some(w) if valid(&w) => Err(format!("rejected with {e:?}, the property requires it to be built")),
            None => Ok(()),
            _ => Ok(()),
        },
        Ok(g) => {
            ensure(missing.is_empty(), || format!("built although {missing:?} were not set"))?;
            let mut w = want.unwrap();
            ensure(valid(&w), || "built although not valid".into())?;
            let mut g = g;
            norm(&mut g);
            norm(&mut w);
            eq(&g, &w, "built element")
        }
    }
}
macro_rules! miss { ($m:expr; $($f:ident),*) => {{ let mut v: Vec<&str> = vec![]; $(if $m.$f.is_none() { v.push(stringify!($f)); })* v }} }

pub fn c19(c: &mut Ctx) {
    for _ in 0..c.n(1500) {
        if c.stop() { break; }
        let omit = c.rng.chance(1, 3);
        let l = lvl(&mut c.rng);
        macro_rules! run { ($B:ident, $T:ty, $base:expr, $modf:ident, miss[$($mm:ident),*], norm[$($n:ident),*], $fix:expr) => {{
            let (b, m, log) = $B::random(&mut c.rng, omit);
            c.case(stringify!($T), true, &format!("{}::builder(){log}.build({l:?})", stringify!($T)), || {
                let missing = miss!(m; $($mm),*);
                let want = if missing.is_empty() { let mut w: $T = $base; ($modf)(&mut w, &m); let f: &dyn Fn(&mut $T, &$B) = &$fix; f(&mut w, &m); Some(w) } else { None };
                judge(b.build(l), &missing, want, |w| w.validate(l).is_ok() && PropsOk::props_ok(w, l), |x: &mut $T| { let _ = &x; $(x.$n = n2(&x.$n);)* })
            });
        }} }
        run!(EvB, EnumeratedValue, EnumeratedValue::builder().name("z".into()).build(L).unwrap(), ev_mod, miss[name], norm[description], |_, _| {});
        run!(EvsB, EnumeratedValues, EnumeratedValues::builder().build(L).unwrap(), evs_mod, miss[], norm[name], |_, _| {});
        run!(IntB, Interrupt, Interrupt::builder().name("z".into()).value(0).build(L).unwrap(), int_mod, miss[name, value], norm[description], |_, _| {});
        run!(AbB, AddressBlock, AddressBlock::builder().offset(0).size(0).usage(AddressBlockUsage::Buffer).build(L).unwrap(), ab_mod, miss[offset, size, usage], norm[], |_, _| {});
        run!(CpuB, Cpu, { let mut x = cpu(&mut Rng(1)); x.fpu_double_precision = None; x.dsp_present = None; x.icache_present = None; x.dcache_present = None; x.itcm_present = None; x.dtcm_present = None; x.vtor_present = None; x.device_num_interrupts = None; x.sau_num_regions = None; x }, cpu_mod, miss[name, revision, endian, mpu_present, fpu_present, nvic_priority_bits, has_vendor_systick], norm[], |_, _| {});
        run!(DimB, DimElement, dim_base(0, 0), dim_mod, miss[dim, dim_increment], norm[dim_name], |w: &mut DimElement, _| { if w.dim_index.as_ref().map_or(false, |v| v.is_empty()) { w.dim_index = None; } });
        run!(FieldB, FieldInfo, field_base("z", BitRange::from_offset_width(0, 1)), field_mod, miss[name, bit_range], norm[description], |_, _| {});
        run!(RegB, RegisterInfo, reg_base("z", 0), reg_mod, miss[name, address_offset], norm[display_name, description, alternate_group, alternate_register], |_, _| {});
        run!(ClB, ClusterInfo, cluster_base("z", 0), cl_mod, miss[name, address_offset, children], norm[description, alternate_cluster, header_struct_name], |_, _| {});
        run!(PerB, PeripheralInfo, per_base("z", 0), per_mod, miss[name, base_address], norm[display_name, version, description, alternate_peripheral, group_name, prepend_to_name, append_to_name, header_struct_name], |_, _| {});
        // device: defaults below strict level
        let (b, m, log) = DevB::random(&mut c.rng, omit);
        c.case("Device", true, &format!("Device::builder(){log}.build({l:?})"), || {
            let mut missing = miss!(m; name, peripherals);
            if l == ValidateLevel::Strict {
                for (n, f) in [("version", m.version.is_none()), ("description", m.description.is_none()), ("addressUnitBits", m.address_unit_bits.is_none()), ("width", m.width.is_none())] { if f { missing.push(n); } }
            }
            let want = if missing.is_empty() {
                let mut w = dev_base("z");
                w.version = "1.0".into(); w.description = "".into(); w.address_unit_bits = 8; w.width = 32;
                w.xmlns_xs = "http://www.w3.org/2001/XMLSchema-instance".into();
                w.schema_version = "1.1".into();
                w.no_namespace_schema_location = "CMSIS-SVD_Schema_1_1.xsd".into();
                dev_mod(&mut w, &m);
                Some(w)
            } else { None };
            judge(b.build(l), &missing, want, |w| w.validate(l).is_ok() && w.default_register_properties.validate(l).is_ok(), |w: &mut Device| { w.vendor = n2(&w.vendor); w.vendor_id = n2(&w.vendor_id); w.series = n2(&w.series); w.license_text = n2(&w.license_text); w.header_system_filename = n2(&w.header_system_filename); w.header_definitions_prefix = n2(&w.header_definitions_prefix); })
        });
        // register builder's property shortcuts
        let r = &mut c.rng;
        let (p, a, s, rv, rm, k) = (any_props(r), r.opt(access), r.opt(|r| r.num32()), r.opt(|r| r.num64()), r.opt(|r| r.num64()), r.below(16));
        c.case("register-shortcuts", true, &format!("{p:?} {a:?} {s:?} {rv:?} {rm:?} {k}"), || {
            let mut b = RegisterInfo::builder().name("R".into()).address_offset(4).properties(p);
            let mut w = p;
            if k & 1 != 0 { b = b.access(a); w.access = a; }
            if k & 2 != 0 { b = b.size(s); w.size = s; }
            if k & 4 != 0 { b = b.reset_value(rv); w.reset_value = rv; }
            if k & 8 != 0 { b = b.reset_mask(rm); w.reset_mask = rm; }
            eq(&b.build(L).map_err(|e| format!("{e:?}"))?.properties, &w, "properties")
        });
        // field position: offset and width in any order, any number of times
        let r = &mut c.rng;
        let steps: Vec<(u64, u32, u32)> = (0..1 + r.us(5)).map(|_| ({ let k = if r.chance(1, 3) { 3 } else { 2 }; r.below(k) }, r.below(64) as u32, 1 + r.below(32) as u32)).collect();
        c.case("field-position", steps.len() > 1, &format!("{steps:?} (0: bit_offset, 1: bit_width, 2: bit_range)"), || {
            let mut b = FieldInfo::builder().name("F".into());
            let (mut o, mut w) = (None, None);
            for (k, x, y) in &steps {
                match k { 0 => { b = b.bit_offset(*x); o = Some(*x); } 1 => { b = b.bit_width(*y); w = Some(*y); } _ => { b = b.bit_range(BitRange::from_offset_width(*x, *y)); o = Some(*x); w = Some(*y); } }
            }
            match (b.build(L), o, w) {
                (Ok(f), Some(o), Some(w)) => eq(&(f.bit_offset(), f.bit_width()), &(o, w), "position"),
                (Err(_), None, _) | (Err(_), _, None) => Ok(()),
                (g, o, w) => Err(format!("built {g:?} from offset {o:?} width {w:?}")),
            }
        });
        // maybe_array and friends
        let r = &mut c.rng;
        let (f, x, k, p, d) = (field_info(r), register_info(r), cluster_info(r, 1), per_info(r, 1), r.opt(dim));
        c.case("maybe_array", true, &format!("{d:?}"), || {
            fn ck<T: PartialEq + std::fmt::Debug>(g: MaybeArray<T>, i: T, d: &Option<DimElement>) -> Result<(), String> {
                let single = d.is_none();
                ensure(g.is_single() == single && g.is_array() == !single, || "kind".into())?;
                let w = match d { None => MaybeArray::Single(i), Some(d) => MaybeArray::Array(i, d.clone()) };
                eq(&g, &w, "maybe_array")
            }
            ck(f.clone().maybe_array(d.clone()), f.clone(), &d)?;
            ck(x.clone().maybe_array(d.clone()), x.clone(), &d)?;
            ck(k.clone().maybe_array(d.clone()), k.clone(), &d)?;
            ck(p.clone().maybe_array(d.clone()), p.clone(), &d)
        });
        // a builder made from an element rebuilds that element
        let r = &mut c.rng;
        let d = device(r, 1);
        c.case("rebuild", true, "elements of a random device", || {
            let rebuilt = DeviceBuilder::from(d.clone()).build(L).map_err(|e| format!("{e:?}"))?;
            eq(&rebuilt, &d, "device rebuilt from its builder")?;
            for p in &d.peripherals {
                let i: PeripheralInfo = (**p).clone();
                eq(&PeripheralInfoBuilder::from(i.clone()).build(L).map_err(|e| format!("{e:?}"))?, &i, "peripheral rebuilt")?;
                for x in &i.interrupt { eq(&InterruptBuilder::from(x.clone()).build(L).map_err(|e| format!("{e:?}"))?, x, "interrupt rebuilt")?; }
                for x in i.address_block.iter().flatten() { eq(&AddressBlockBuilder::from(x.clone()).build(L).map_err(|e| format!("{e:?}"))?, x, "address block rebuilt")?; }
                for x in i.clusters() { let x: ClusterInfo = (**x).clone(); eq(&ClusterInfoBuilder::from(x.clone()).build(L).map_err(|e| format!("{e:?}"))?, &x, "cluster rebuilt")?; }
                for rg in p.all_registers() {
                    let x: RegisterInfo = (**rg).clone();
                    eq(&RegisterInfoBuilder::from(x.clone()).build(L).map_err(|e| format!("{e:?}"))?, &x, "register rebuilt")?;
                    for f in rg.fields() {
                        let x: FieldInfo = (**f).clone();
                        eq(&FieldInfoBuilder::from(x.clone()).build(L).map_err(|e| format!("{e:?}"))?, &x, "field rebuilt")?;
                        for e in &f.enumerated_values { eq(&EnumeratedValuesBuilder::from(e.clone()).build(L).map_err(|e| format!("{e:?}"))?, e, "enumerated values rebuilt")?;
                            for v in &e.values { eq(&EnumeratedValueBuilder::from(v.clone()).build(L).map_err(|e| format!("{e:?}"))?, v, "enumerated value rebuilt")?; } }
                        if let Field::Array(_, dd) = f { eq(&DimElementBuilder::from(dd.clone()).build(L).map_err(|e| format!("{e:?}"))?, dd, "dim rebuilt")?; }
                    }
                }
            }
            if let Some(x) = &d.cpu { eq(&CpuBuilder::from(x.clone()).build(L).map_err(|e| format!("{e:?}"))?, x, "cpu rebuilt")?; }
            Ok(())
        });
    }
}

pub fn c20(c: &mut Ctx) {
    for _ in 0..c.n(2500) {
        if c.stop() { break; }
        let l = lvl(&mut c.rng);
        macro_rules! run { ($B:ident, $T:ty, $g:expr, $want:expr) => {{
            let x: $T = ($g)(&mut c.rng);
            let (b, m, log) = $B::random(&mut c.rng, true);
            c.case(stringify!($T), true, &format!("modify {x:?} with {log} at {l:?}"), || {
                let mut got = x.clone();
                let res = got.modify_from(b, l);
                let mut w = x.clone();
                // inner default properties are validated on their own
                let pre: bool = ($want)(&mut w, &m, &mut got, l);
                if pre && w.validate(l).is_ok() { res.map_err(|e| format!("rejected with {e:?}, the property requires acceptance"))?; }
                else { ensure(res.is_err(), || "accepted, the property requires rejection".into())?; if !pre { return Ok(()); } }
                eq(&got, &w, "modified element")
            });
        }} }
        // the position alone, in part or in full
        let r = &mut c.rng;
        let old = BitRange::from_offset_width(r.below(32) as u32, 1 + r.below(32) as u32);
        let steps: Vec<(u64, u32, u32)> = (0..1 + r.us(3)).map(|_| (r.below(3), r.below(32) as u32, 1 + r.below(32) as u32)).collect();
        c.case("field-position", true, &format!("modify {old:?} with {steps:?} (0: bit_offset, 1: bit_width, 2: bit_range)"), || {
            let mut b = FieldInfo::builder();
            let (mut o, mut w) = (old.offset, old.width);
            for (k, x, y) in &steps {
                match k { 0 => { b = b.bit_offset(*x); o = *x; } 1 => { b = b.bit_width(*y); w = *y; } _ => { b = b.bit_range(BitRange::from_offset_width(*x, *y)); o = *x; w = *y; } }
            }
            let mut f = FieldInfo::builder().name("F".into()).bit_range(old).build(L).map_err(|e| format!("{e:?}"))?;
            f.modify_from(b, L).map_err(|e| format!("{e:?}"))?;
            eq(&(f.bit_offset(), f.bit_width()), &(o, w), "position")
        });
        run!(EvB, EnumeratedValue, any_ev, |w: &mut EnumeratedValue, m: &EvB, _: &mut EnumeratedValue, _| { ev_mod(w, m); true });
        run!(EvsB, EnumeratedValues, any_evs, |w: &mut EnumeratedValues, m: &EvsB, _: &mut _, _| {
            if m.derived_from.is_some() { w.derived_from = m.derived_from.clone(); w.name = None; w.usage = None; w.values = vec![]; } else { evs_mod(w, m); }
            true });
        run!(IntB, Interrupt, interrupt, |w: &mut Interrupt, m: &IntB, _: &mut Interrupt, _| { int_mod(w, m); true });
        run!(AbB, AddressBlock, ab, |w: &mut AddressBlock, m: &AbB, _: &mut _, _| { ab_mod(w, m); true });
        run!(CpuB, Cpu, cpu, |w: &mut Cpu, m: &CpuB, _: &mut _, _| { cpu_mod(w, m); true });
        run!(DimB, DimElement, dim, |w: &mut DimElement, m: &DimB, _: &mut _, _| { dim_mod(w, m); if w.dim_index.as_ref().map_or(false, |v| v.is_empty()) { w.dim_index = None; } true });
        run!(FieldB, FieldInfo, any_field_info, |w: &mut FieldInfo, m: &FieldB, g: &mut FieldInfo, _| {
            let mut m = m.clone();
            if m.derived_from.is_some() {
                m.modified_write_values = None; m.write_constraint = None; m.read_action = None; m.enumerated_values = None;
                field_mod(w, &m);
                w.modified_write_values = None; w.write_constraint = None; w.enumerated_values = vec![];
                w.read_action = g.read_action; // not settled by the property
            } else { field_mod(w, &m); }
            true });
        fn merge(a: &mut RegisterProperties, b: &RegisterProperties) { if b.size.is_some() { a.size = b.size; } if b.access.is_some() { a.access = b.access; } if b.protection.is_some() { a.protection = b.protection; } if b.reset_value.is_some() { a.reset_value = b.reset_value; } if b.reset_mask.is_some() { a.reset_mask = b.reset_mask; } }
        run!(RegB, RegisterInfo, register_info, |w: &mut RegisterInfo, m: &RegB, g: &mut RegisterInfo, l| {
            let old = w.properties;
            let mut m2 = m.clone();
            m2.properties = None;
            if m.derived_from.is_some() {
                m2.datatype = None; m2.modified_write_values = None; m2.write_constraint = None; m2.read_action = None; m2.fields = None;
                reg_mod(w, &m2);
                w.fields = None; w.properties = RegisterProperties::default(); w.datatype = None; w.modified_write_values = None; w.write_constraint = None;
                w.read_action = g.read_action;
                true
            } else {
                reg_mod(w, &m2);
                if w.fields.as_ref().map_or(false, |v| v.is_empty()) && m.fields.is_some() { w.fields = None; }
                w.properties = old;
                if let Some(p) = &m.properties { merge(&mut w.properties, p); }
                w.properties.validate(l).is_ok()
            } });
        run!(ClB, ClusterInfo, |r: &mut Rng| cluster_info(r, 1), |w: &mut ClusterInfo, m: &ClB, _: &mut _, l| {
            let old = w.default_register_properties;
            let mut m2 = m.clone();
            m2.default_register_properties = None;
            if m.derived_from.is_some() {
                m2.children = None;
                cl_mod(w, &m2);
                w.children = vec![]; w.default_register_properties = RegisterProperties::default();
                true
            } else {
                cl_mod(w, &m2);
                w.default_register_properties = old;
                if let Some(p) = &m.default_register_properties { merge(&mut w.default_register_properties, p); }
                w.default_register_properties.validate(l).is_ok()
            } });
        run!(PerB, PeripheralInfo, |r: &mut Rng| per_info(r, 1), |w: &mut PeripheralInfo, m: &PerB, _: &mut _, l| {
            let old = w.default_register_properties;
            let mut m2 = m.clone();
            m2.default_register_properties = None;
            if m.derived_from.is_some() {
                m2.registers = None; m2.address_block = None;
                per_mod(w, &m2);
                w.registers = None; w.address_block = None; w.default_register_properties = RegisterProperties::default();
                true
            } else {
                per_mod(w, &m2);
                if m.registers.as_ref().map_or(false, |v| v.is_empty()) { w.registers = None; }
                w.default_register_properties = old;
                if let Some(p) = &m.default_register_properties { merge(&mut w.default_register_properties, p); }
                w.default_register_properties.validate(l).is_ok()
            } });
        run!(DevB, Device, |r: &mut Rng| device(r, 1), |w: &mut Device, m: &DevB, _: &mut _, l| {
            let old = w.default_register_properties;
            let mut m2 = m.clone();
            m2.default_register_properties = None;
            dev_mod(w, &m2);
            w.default_register_properties = old;
            if let Some(p) = &m.default_register_properties { merge(&mut w.default_register_properties, p); }
            w.default_register_properties.validate(l).is_ok() });
        let r = &mut c.rng;
        let (mut a, b) = (any_props(r), any_props(r));
        let a0 = a;
        c.case("RegisterProperties", true, &format!("modify {a:?} with {b:?} at {l:?}"), || {
            let res = a.modify_from(b, l);
            let mut w = a0;
            merge(&mut w, &b);
            ensure(res.is_ok() == w.validate(l).is_ok(), || format!("result {res:?}"))?;
            eq(&a, &w, "modified properties")
        });
    }
}

// ---------------------------------------------------------------- deriving
fn or<T: Clone>(a: &Option<T>, b: &Option<T>) -> Option<T> { if a.is_some() { a.clone() } else { b.clone() } }
pub fn d_props(a: &RegisterProperties, b: &RegisterProperties) -> RegisterProperties {
    let mut x = *a;
    x.size = or(&a.size, &b.size); x.access = or(&a.access, &b.access); x.protection = or(&a.protection, &b.protection);
    x.reset_value = or(&a.reset_value, &b.reset_value); x.reset_mask = or(&a.reset_mask, &b.reset_mask);
    x
}
pub fn d_evs(a: &EnumeratedValues, b: &EnumeratedValues) -> EnumeratedValues { let mut x = a.clone(); x.usage = or(&a.usage, &b.usage); if a.values.is_empty() { x.values = b.values.clone(); } x }
pub fn d_field(a: &FieldInfo, b: &FieldInfo) -> FieldInfo {
    let mut x = a.clone();
    x.description = or(&a.description, &b.description); x.access = or(&a.access, &b.access);
    x.modified_write_values = or(&a.modified_write_values, &b.modified_write_values); x.write_constraint = or(&a.write_constraint, &b.write_constraint); x.read_action = or(&a.read_action, &b.read_action);
    if a.enumerated_values.is_empty() { x.enumerated_values = b.enumerated_values.clone(); }
    x
}
pub fn d_reg(a: &RegisterInfo, b: &RegisterInfo) -> RegisterInfo {
    let mut x = a.clone();
    x.description = or(&a.description, &b.description); x.properties = d_props(&a.properties, &b.properties); x.fields = or(&a.fields, &b.fields);
    x.modified_write_values = or(&a.modified_write_values, &b.modified_write_values); x.write_constraint = or(&a.write_constraint, &b.write_constraint); x.read_action = or(&a.read_action, &b.read_action);
    x
}
pub fn d_cluster(a: &ClusterInfo, b: &ClusterInfo) -> ClusterInfo {
    let mut x = a.clone();
    x.default_register_properties = d_props(&a.default_register_properties, &b.default_register_properties);
    x.header_struct_name = or(&a.header_struct_name, &b.header_struct_name);
    if a.children.is_empty() { x.children = b.children.clone(); }
    x
}
pub fn d_per(a: &PeripheralInfo, b: &PeripheralInfo) -> PeripheralInfo {
    let mut x = a.clone();
    x.version = or(&a.version, &b.version); x.description = or(&a.description, &b.description); x.group_name = or(&a.group_name, &b.group_name);
    x.prepend_to_name = or(&a.prepend_to_name, &b.prepend_to_name); x.append_to_name = or(&a.append_to_name, &b.append_to_name); x.header_struct_name = or(&a.header_struct_name, &b.header_struct_name);
    x.default_register_properties = d_props(&a.default_register_properties, &b.default_register_properties);
    x.registers = or(&a.registers, &b.registers); x.address_block = or(&a.address_block, &b.address_block);
    if a.interrupt.is_empty() { x.interrupt = b.interrupt.clone(); }
    x
}
pub fn d_arr<T: Clone>(a: &MaybeArray<T>, b: &MaybeArray<T>, name: &str, f: impl Fn(&T, &T) -> T) -> MaybeArray<T> {
    let bi: &T = b;
    match (a, b) {
        (MaybeArray::Array(i, d), _) => MaybeArray::Array(f(i, bi), d.clone()),
        (MaybeArray::Single(i), MaybeArray::Array(_, d)) if name.contains("%s") => { let mut d = d.clone(); d.dim_name = None; MaybeArray::Array(f(i, bi), d) }
        (MaybeArray::Single(i), _) => MaybeArray::Single(f(i, bi)),
    }
}
fn two<T: std::fmt::Debug>(a: &T, b: &T) -> String { format!("{a:?} from {b:?}") }

pub fn c13(c: &mut Ctx) {
    for _ in 0..c.n(4000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let (a, b) = (any_props(r), any_props(r));
        c.case("properties", true, &two(&a, &b), || eq(&a.derive_from(&b), &d_props(&a, &b), "derived"));
        let r = &mut c.rng;
        let (a, b) = (any_evs(r), any_evs(r));
        c.case("enumeratedValues", true, &two(&a, &b), || eq(&a.derive_from(&b), &d_evs(&a, &b), "derived"));
        let r = &mut c.rng;
        let (a, b) = (any_field_info(r), any_field_info(r));
        c.case("field", true, &two(&a, &b), || eq(&a.derive_from(&b), &d_field(&a, &b), "derived"));
        let r = &mut c.rng;
        let (mut a, b) = (register_info(r), register_info(r));
        if r.chance(1, 8) { a.fields = Some(vec![]); }
        c.case("register", true, &two(&a, &b), || { let mut w = d_reg(&a, &b); let g = a.derive_from(&b); w.datatype = if a.datatype.is_none() { g.datatype } else { a.datatype }; if a.datatype.is_none() { ensure(g.datatype.is_none() || g.datatype == b.datatype, || "datatype".into())?; } eq(&g, &w, "derived") });
        let r = &mut c.rng;
        let (a, b) = (cluster_info(r, 1), cluster_info(r, 1));
        c.case("cluster", true, &two(&a, &b), || { let mut w = d_cluster(&a, &b); let g = a.derive_from(&b); if a.description.is_none() && g.description == b.description { w.description = g.description.clone(); } eq(&g, &w, "derived") });
        let r = &mut c.rng;
        let (a, b) = (per_info(r, 1), per_info(r, 1));
        c.case("peripheral", true, &two(&a, &b), || eq(&a.derive_from(&b), &d_per(&a, &b), "derived"));
    }
}
pub fn c14(c: &mut Ctx) {
    for _ in 0..c.n(6000) {
        if c.stop() { break; }
        macro_rules! one { ($g:expr, $d:ident, $k:expr) => {{
            let (mut a, b) = (($g)(&mut c.rng), ($g)(&mut c.rng));
            if c.rng.coin() { a.name = c.rng.pick(&["A%s", "A[%s]", "%s", "A", "A%", "As", "%S", "A% s", "A%sB", "%sA", "A[%s]B", "%s[%s]", "%%s", "A%%sb", "a.%s.b"]).to_string(); }
            c.case($k, true, &two(&a, &b), || eq(&a.derive_from(&b), &d_arr(&a, &b, &a.name, |x, y| x.derive_from(y)), "derived"));
        }} }
        one!(field, d_field, "field");
        one!(register, d_reg, "register");
        one!(|r: &mut Rng| cluster(r, 1), d_cluster, "cluster");
        one!(|r: &mut Rng| peripheral(r, 1), d_per, "peripheral");
    }
}
