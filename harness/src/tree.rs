use crate::ctx::*;
use crate::gen::*;
use svd_parser::svd;
use svd::*;

pub fn idx(d: &DimElement) -> Vec<String> { d.dim_index.clone().unwrap_or_else(|| (0..d.dim).map(|i| i.to_string()).collect()) }
pub fn subst(s: &str, i: &str) -> String {
    // `[%s]` and `%s` stand for the index
    let mut o = String::new();
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(t) = rest.strip_prefix("[%s]") { o.push_str(i); rest = t; }
        else if let Some(t) = rest.strip_prefix("%s") { o.push_str(i); rest = t; }
        else { let ch = rest.chars().next().unwrap(); o.push(ch); rest = &rest[ch.len_utf8()..]; }
    }
    o
}
fn entry<'a>(d: &'a DimElement, i: &str) -> Option<&'a EnumeratedValue> { d.dim_array_index.as_ref().and_then(|a| a.values.iter().find(|v| v.value.map(|x| x.to_string()) == Some(i.to_string()))) }
pub fn nm(name: &str, d: &DimElement, i: &str) -> String { entry(d, i).map(|e| e.name.clone()).unwrap_or_else(|| subst(name, i)) }
pub fn de(desc: &Option<String>, d: &DimElement, i: &str) -> Option<String> { entry(d, i).and_then(|e| e.description.clone()).or_else(|| desc.as_ref().map(|x| subst(x, i))) }
pub fn x_field(f: &FieldInfo, d: &DimElement) -> Vec<FieldInfo> {
    idx(d).iter().enumerate().map(|(k, i)| { let mut x = f.clone(); x.name = nm(&f.name, d, i); x.description = de(&f.description, d, i); x.bit_range.offset = f.bit_range.offset + k as u32 * d.dim_increment; x.bit_range.range_type = BitRangeType::OffsetWidth; x }).collect()
}
pub fn x_reg(f: &RegisterInfo, d: &DimElement) -> Vec<RegisterInfo> {
    idx(d).iter().enumerate().map(|(k, i)| { let mut x = f.clone(); x.name = nm(&f.name, d, i); x.description = de(&f.description, d, i); x.display_name = f.display_name.as_ref().map(|s| subst(s, i)); x.address_offset = f.address_offset + k as u32 * d.dim_increment; x }).collect()
}
pub fn x_cluster(f: &ClusterInfo, d: &DimElement) -> Vec<ClusterInfo> {
    idx(d).iter().enumerate().map(|(k, i)| { let mut x = f.clone(); x.name = nm(&f.name, d, i); x.description = de(&f.description, d, i); x.address_offset = f.address_offset + k as u32 * d.dim_increment; x }).collect()
}
pub fn x_per(f: &PeripheralInfo, d: &DimElement) -> Vec<PeripheralInfo> {
    idx(d).iter().enumerate().map(|(k, i)| { let mut x = f.clone(); x.name = nm(&f.name, d, i); x.description = de(&f.description, d, i); x.display_name = f.display_name.as_ref().map(|s| subst(s, i)); x.base_address = f.base_address + k as u64 * d.dim_increment as u64; x }).collect()
}
fn ixdim(r: &mut Rng) -> DimElement {
    let n = r.us(6);
    let mut d = dim_base(n as u32, match r.below(3) { 0 => r.below(8) as u32, 1 => 1 << r.below(20), _ => r.below(1 << 20) as u32 });
    if r.coin() && n > 0 { d.dim_index = Some(index_list(r, n)); }
    if r.coin() {
        d.dim_array_index = Some(DimArrayIndex { header_enum_name: None, values: (0..r.us(4)).map(|_| { let mut e = any_ev(r); if r.chance(3, 4) { e.value = Some(r.below(6)); } e }).collect() });
    }
    d
}
fn atext(r: &mut Rng) -> String { let n = r.us(5); let mut s = String::new(); for _ in 0..n { s.push_str(*r.pick(&["%s", "[%s]", "A", "b ", "%", "[", "]", "s", "é", "[%s", "%%s"])); } s }

pub fn c08(c: &mut Ctx) {
    for _ in 0..c.n(4000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = ixdim(r);
        let mut f = field_info(r);
        f.name = if r.coin() { arr_ident(r) } else { atext(r) };
        f.description = r.opt(atext);
        f.bit_range.offset %= 1 << 16;
        c.case("field", d.dim > 0, &format!("{f:?} {d:?}"), || {
            let g: Vec<FieldInfo> = svd::field::expand(&f, &d).collect();
            let mut g2 = g.clone();
            // the notation of the position is not part of the property
            for x in &mut g2 { x.bit_range.range_type = BitRangeType::OffsetWidth; }
            eq(&g2, &x_field(&f, &d), "field::expand")?;
            eq(&svd::array::names(&f, &d).collect::<Vec<_>>(), &x_field(&f, &d).iter().map(|x| x.name.clone()).collect::<Vec<_>>(), "names")?;
            eq(&svd::array::descriptions(&f, &d).collect::<Vec<_>>(), &x_field(&f, &d).iter().map(|x| x.description.clone()).collect::<Vec<_>>(), "descriptions")?;
            eq(&svd::field::bit_offsets(&f, &d).collect::<Vec<_>>(), &x_field(&f, &d).iter().map(|x| x.bit_range.offset).collect::<Vec<_>>(), "bit_offsets")
        });
        let r = &mut c.rng;
        let mut x = register_info(r);
        x.name = if r.coin() { arr_ident(r) } else { atext(r) };
        x.description = r.opt(atext);
        x.display_name = r.opt(atext);
        x.address_offset = if r.chance(1, 4) && d.dim > 0 { u32::MAX - (d.dim - 1) * d.dim_increment } else { x.address_offset % (1 << 24) };
        c.case("register", d.dim > 0, &format!("{x:?} {d:?}"), || {
            eq(&svd::register::expand(&x, &d).collect::<Vec<_>>(), &x_reg(&x, &d), "register::expand")?;
            eq(&svd::register::address_offsets(&x, &d).collect::<Vec<_>>(), &x_reg(&x, &d).iter().map(|x| x.address_offset).collect::<Vec<_>>(), "address_offsets")
        });
        let r = &mut c.rng;
        let mut k = cluster_info(r, 1);
        k.name = if r.coin() { arr_ident(r) } else { atext(r) };
        k.description = r.opt(atext);
        k.address_offset = if r.chance(1, 4) && d.dim > 0 { u32::MAX - (d.dim - 1) * d.dim_increment } else { k.address_offset % (1 << 24) };
        c.case("cluster", d.dim > 0, &format!("{k:?} {d:?}"), || {
            eq(&svd::cluster::expand(&k, &d).collect::<Vec<_>>(), &x_cluster(&k, &d), "cluster::expand")?;
            eq(&svd::cluster::address_offsets(&k, &d).collect::<Vec<_>>(), &x_cluster(&k, &d).iter().map(|x| x.address_offset).collect::<Vec<_>>(), "address_offsets")
        });
        let r = &mut c.rng;
        let mut p = per_info(r, 1);
        p.name = if r.coin() { arr_ident(r) } else { atext(r) };
        p.description = r.opt(atext);
        p.display_name = r.opt(atext);
        let mut d = d.clone();
        if r.chance(1, 4) { d.dim_increment = r.num32(); }
        let span = d.dim.saturating_sub(1) as u64 * d.dim_increment as u64;
        p.base_address = if r.chance(1, 4) { u64::MAX - span } else { p.base_address.min(u64::MAX - span) };
        c.case("peripheral", d.dim > 0, &format!("{p:?} {d:?}"), || {
            eq(&svd::peripheral::expand(&p, &d).collect::<Vec<_>>(), &x_per(&p, &d), "peripheral::expand")?;
            eq(&svd::peripheral::base_addresses(&p, &d).collect::<Vec<_>>(), &x_per(&p, &d).iter().map(|x| x.base_address).collect::<Vec<_>>(), "base_addresses")
        });
    }
}

pub fn c15(c: &mut Ctx) {
    crate::expd::through_parser(c, 400);
    use crate::bld::d_props;
    fn walk(v: &mut Vec<RegisterCluster>, p: &RegisterProperties) {
        for x in v {
            match x {
                RegisterCluster::Register(r) => if r.derived_from.is_none() { r.properties = d_props(&r.properties, p); },
                RegisterCluster::Cluster(k) => if k.derived_from.is_none() { let p = d_props(&k.default_register_properties, p); walk(&mut k.children, &p); },
            }
        }
    }
    for _ in 0..c.n(3000) {
        if c.stop() { break; }
        let d = device(&mut c.rng, 4);
        c.case("device", true, &format!("{d:?}"), || {
            let mut g = d.clone();
            svd_parser::expand_properties(&mut g);
            let mut w = d.clone();
            for p in &mut w.peripherals {
                if p.derived_from.is_some() { continue; }
                let q = d_props(&p.default_register_properties, &d.default_register_properties);
                if let Some(v) = p.registers.as_mut() { walk(v, &q); }
            }
            eq(&g, &w, "expanded device")
        });
    }
}

fn flat<'a>(v: &'a [RegisterCluster], out: &mut Vec<&'a Register>) { for x in v { match x { RegisterCluster::Register(r) => out.push(r), RegisterCluster::Cluster(k) => flat(&k.children, out) } } }
fn ptrs<'a, T: 'a>(i: impl Iterator<Item = &'a T>) -> Vec<*const T> { i.map(|x| x as *const T).collect() }

pub fn c18(c: &mut Ctx) {
    for _ in 0..c.n(4000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let mut p = per_info(r, 4);
        let k0 = cluster_info(r, 4);
        let probe = ident(r);
        // provoke equal names
        if let Some(v) = p.registers.as_mut() { for x in v.iter_mut() { if r.chance(1, 3) { match x { RegisterCluster::Register(r) => r.name = probe.clone(), RegisterCluster::Cluster(k) => k.name = probe.clone() } } } }
        c.case("peripheral", p.registers.as_ref().map_or(false, |v| v.len() > 1), &format!("{p:?}, name {probe:?}"), || {
            let v: &[RegisterCluster] = p.registers.as_deref().unwrap_or(&[]);
            let regs: Vec<*const Register> = v.iter().filter_map(|x| match x { RegisterCluster::Register(r) => Some(r as *const _), _ => None }).collect();
            let cls: Vec<*const Cluster> = v.iter().filter_map(|x| match x { RegisterCluster::Cluster(r) => Some(r as *const _), _ => None }).collect();
            let mut all = vec![];
            flat(v, &mut all);
            let all: Vec<*const Register> = all.into_iter().map(|x| x as *const _).collect();
            eq(&ptrs(p.registers()), &regs, "registers()")?;
            eq(&ptrs(p.clusters()), &cls, "clusters()")?;
            eq(&ptrs(p.all_registers()), &all, "all_registers()")?;
            #[allow(deprecated)]
            eq(&ptrs(p.reg_iter()), &all, "reg_iter()")?;
            let gr = v.iter().find_map(|x| match x { RegisterCluster::Register(r) if r.name == probe => Some(r as *const Register), _ => None });
            let gc = v.iter().find_map(|x| match x { RegisterCluster::Cluster(r) if r.name == probe => Some(r as *const Cluster), _ => None });
            let gi = p.interrupt.iter().find(|i| i.name == probe).map(|i| i as *const Interrupt);
            eq(&p.get_register(&probe).map(|x| x as *const _), &gr, "get_register")?;
            eq(&p.get_cluster(&probe).map(|x| x as *const _), &gc, "get_cluster")?;
            eq(&p.get_interrupt(&probe).map(|x| x as *const _), &gi, "get_interrupt")?;
            let mut q = p.clone();
            let mut w = p.clone();
            for x in q.all_registers_mut() { x.name.push('!'); }
            fn mark(v: &mut Vec<RegisterCluster>) { for x in v { match x { RegisterCluster::Register(r) => r.name.push('!'), RegisterCluster::Cluster(k) => mark(&mut k.children) } } }
            if let Some(v) = w.registers.as_mut() { mark(v); }
            eq(&q, &w, "all_registers_mut()")?;
            eq(&q.all_registers_mut().map(|x| x.name.clone()).collect::<Vec<_>>(), &w.all_registers().map(|x| x.name.clone()).collect::<Vec<_>>(), "order of all_registers_mut()")?;
            let mut q = p.clone();
            let mut w = p.clone();
            for x in q.registers_mut() { x.name.push('!'); }
            for x in q.clusters_mut() { x.name.push('?'); }
            if let Some(v) = w.registers.as_mut() { for x in v { match x { RegisterCluster::Register(r) => r.name.push('!'), RegisterCluster::Cluster(k) => k.name.push('?') } } }
            eq(&q, &w, "registers_mut()/clusters_mut()")?;
            let mut q = p.clone();
            let n = q.get_mut_register(&probe).map(|x| { x.address_offset = 77; x.name.clone() });
            eq(&n, &p.get_register(&probe).map(|x| x.name.clone()), "get_mut_register")?;
            if n.is_some() { eq(&q.get_register(&probe).unwrap().address_offset, &77, "get_mut_register")?; }
            let n = q.get_mut_cluster(&probe).map(|x| { x.address_offset = 77; x.name.clone() });
            eq(&n, &p.get_cluster(&probe).map(|x| x.name.clone()), "get_mut_cluster")?;
            if n.is_some() { eq(&q.get_cluster(&probe).unwrap().address_offset, &77, "get_mut_cluster")?; }
            let n = q.get_mut_interrupt(&probe).map(|x| { x.value = 77; x.name.clone() });
            eq(&n, &p.get_interrupt(&probe).map(|x| x.name.clone()), "get_mut_interrupt")
        });
        c.case("cluster", k0.children.len() > 1, &format!("{k0:?}"), || {
            let v = &k0.children;
            let regs: Vec<*const Register> = v.iter().filter_map(|x| match x { RegisterCluster::Register(r) => Some(r as *const _), _ => None }).collect();
            let cls: Vec<*const Cluster> = v.iter().filter_map(|x| match x { RegisterCluster::Cluster(r) => Some(r as *const _), _ => None }).collect();
            let mut all = vec![];
            flat(v, &mut all);
            let all: Vec<*const Register> = all.into_iter().map(|x| x as *const _).collect();
            eq(&ptrs(k0.registers()), &regs, "registers()")?;
            eq(&ptrs(k0.clusters()), &cls, "clusters()")?;
            eq(&ptrs(k0.all_registers()), &all, "all_registers()")?;
            #[allow(deprecated)]
            eq(&ptrs(k0.reg_iter()), &all, "reg_iter()")?;
            let mut q = k0.clone();
            let a: Vec<String> = k0.all_registers().map(|x| x.name.clone()).collect();
            eq(&q.all_registers_mut().map(|x| x.name.clone()).collect::<Vec<_>>(), &a, "all_registers_mut()")?;
            eq(&q.registers_mut().map(|x| x.name.clone()).collect::<Vec<_>>(), &k0.registers().map(|x| x.name.clone()).collect::<Vec<_>>(), "registers_mut()")?;
            eq(&q.clusters_mut().map(|x| x.name.clone()).collect::<Vec<_>>(), &k0.clusters().map(|x| x.name.clone()).collect::<Vec<_>>(), "clusters_mut()")?;
            for n in a.iter().chain([&"nosuch".to_string()]) {
                let gr = v.iter().find_map(|x| match x { RegisterCluster::Register(r) if &r.name == n => Some(r as *const Register), _ => None });
                eq(&k0.get_register(n).map(|x| x as *const _), &gr, "get_register")?;
                eq(&q.get_mut_register(n).map(|x| (**x).clone()), &k0.get_register(n).map(|x| (**x).clone()), "get_mut_register")?;
            }
            for n in v.iter().map(|x| x.name()) {
                let gc = v.iter().find_map(|x| match x { RegisterCluster::Cluster(r) if &r.name == n => Some(r as *const Cluster), _ => None });
                eq(&k0.get_cluster(n).map(|x| x as *const _), &gc, "get_cluster")?;
                eq(&q.get_mut_cluster(n).map(|x| (**x).clone()), &k0.get_cluster(n).map(|x| (**x).clone()), "get_mut_cluster")?;
            }
            Ok(())
        });
        let r = &mut c.rng;
        let x = register_info(r);
        let d = device(r, 0);
        c.case("fields", true, &format!("{x:?}"), || {
            let fs: &[Field] = x.fields.as_deref().unwrap_or(&[]);
            eq(&ptrs(x.fields()), &ptrs(fs.iter()), "fields()")?;
            let mut y = x.clone();
            eq(&y.fields_mut().map(|f| f.name.clone()).collect::<Vec<_>>(), &fs.iter().map(|f| f.name.clone()).collect::<Vec<_>>(), "fields_mut()")?;
            for n in fs.iter().map(|f| f.name.clone()).chain(["nosuch".into()]) {
                let w = fs.iter().find(|f| f.name == n);
                eq(&x.get_field(&n).map(|x| x as *const _), &w.map(|f| f as *const _), "get_field")?;
                eq(&y.get_mut_field(&n).map(|x| x.clone()), &w.cloned(), "get_mut_field")?;
            }
            let mut dd = d.clone();
            for n in d.peripherals.iter().map(|f| f.name.clone()).chain(["nosuch".into()]) {
                let w = d.peripherals.iter().find(|f| f.name == n);
                eq(&d.get_peripheral(&n).map(|x| x as *const _), &w.map(|f| f as *const _), "get_peripheral")?;
                eq(&dd.get_mut_peripheral(&n).map(|x| x.clone()), &w.cloned(), "get_mut_peripheral")?;
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------ recursive validation
fn v_evs(e: &EnumeratedValues, l: ValidateLevel) -> bool { e.values.iter().all(|v| v.validate(l).is_ok()) && e.validate(l).is_ok() }
fn v_field(f: &FieldInfo, l: ValidateLevel) -> bool { f.enumerated_values.iter().all(|e| v_evs(e, l)) && f.validate(l).is_ok() }
// valid on its own
fn o_opt(n: &Option<String>, f: fn(&str) -> bool) -> bool { n.as_deref().map_or(true, f) }
fn own_reg(r: &RegisterInfo, l: ValidateLevel) -> bool {
    use crate::ints::*;
    !l.is_strict() || dimable_ok(&r.name) && o_opt(&r.alternate_group, plain_ok) && o_opt(&r.alternate_register, dimable_ok) && o_opt(&r.derived_from, derived_ok)
        && (r.derived_from.is_some() || r.fields.as_ref().map_or(true, |f| !f.is_empty()))
}
fn own_cl(k: &ClusterInfo, l: ValidateLevel) -> bool {
    use crate::ints::*;
    !l.is_strict() || dimable_ok(&k.name) && o_opt(&k.derived_from, derived_ok) && (k.derived_from.is_some() || !k.children.is_empty())
}
fn own_per(p: &PeripheralInfo, l: ValidateLevel) -> bool {
    use crate::ints::*;
    !l.is_strict() || dimable_ok(&p.name) && o_opt(&p.derived_from, dimable_ok) && (p.derived_from.is_some() || p.registers.as_ref().map_or(true, |f| !f.is_empty()))
}
fn own_dev(d: &Device, l: ValidateLevel) -> bool { l.is_disabled() || !d.peripherals.is_empty() }
fn v_reg(r: &RegisterInfo, l: ValidateLevel) -> bool { r.properties.validate(l).is_ok() && r.fields.iter().flatten().all(|f| v_field(f, l)) && own_reg(r, l) }
fn v_rc(x: &RegisterCluster, l: ValidateLevel) -> bool { match x { RegisterCluster::Register(r) => v_reg(r, l), RegisterCluster::Cluster(k) => v_cl(k, l) } }
fn v_cl(k: &ClusterInfo, l: ValidateLevel) -> bool { k.default_register_properties.validate(l).is_ok() && k.children.iter().all(|x| v_rc(x, l)) && own_cl(k, l) }
fn v_per(p: &PeripheralInfo, l: ValidateLevel) -> bool { p.default_register_properties.validate(l).is_ok() && p.registers.iter().flatten().all(|x| v_rc(x, l)) && own_per(p, l) }
fn v_dev(d: &Device, l: ValidateLevel) -> bool { d.default_register_properties.validate(l).is_ok() && d.peripherals.iter().all(|p| v_per(p, l)) && own_dev(d, l) }

/// make a strictly valid device, then break it in exactly one place (or none)
fn strict_dev(r: &mut Rng) -> Device {
    let mut d = device(r, 3);
    fn fp(p: &mut RegisterProperties) { p.reset_mask = None; if let (Some(_), Some(v)) = (p.size, p.reset_value) { let _ = v; } }
    fn rcs(v: &mut Vec<RegisterCluster>, r: &mut Rng) {
        for x in v { match x {
            RegisterCluster::Cluster(k) => { fp(&mut k.default_register_properties); if k.children.is_empty() { k.children.push(Register::Single(reg_base("R", 0)).into()); } rcs(&mut k.children, r); }
            RegisterCluster::Register(x) => { fp(&mut x.properties); for f in x.fields.iter_mut().flatten() { f.enumerated_values.truncate(1); for e in &mut f.enumerated_values { for v in &mut e.values { if v.value.is_some() { v.is_default = None; } } } } }
        } }
    }
    fp(&mut d.default_register_properties);
    for p in &mut d.peripherals { fp(&mut p.default_register_properties); if p.registers.as_ref().map_or(false, |v| v.is_empty()) { p.registers = None; } if let Some(v) = p.registers.as_mut() { rcs(v, r); } }
    d
}
fn break_dev(d: &mut Device, r: &mut Rng) -> &'static str {
    let bad = RegisterProperties::default().size(Some(8)).reset_value(Some(0x100));
    fn pickrc<'a>(v: &'a mut Vec<RegisterCluster>, r: &mut Rng) -> Option<&'a mut RegisterCluster> { if v.is_empty() { return None; } let i = r.us(v.len()); let down = matches!(&v[i], RegisterCluster::Cluster(k) if !k.children.is_empty()) && r.chance(2, 3); if down { if let RegisterCluster::Cluster(k) = &mut v[i] { return pickrc(&mut k.children, r); } return None; } Some(&mut v[i]) }
    match r.below(16) {
        3 => { let i = r.us(d.peripherals.len()); d.peripherals[i].derived_from = None; d.peripherals[i].registers = Some(vec![]); return "empty register list"; }
        4 => { let i = r.us(d.peripherals.len()); d.peripherals[i].derived_from = Some("a b".into()); return "peripheral derivedFrom"; }
        5 => { d.peripherals.clear(); return "no peripherals"; }
        0 => { d.default_register_properties = bad; return "device properties"; }
        1 => { let i = r.us(d.peripherals.len()); d.peripherals[i].default_register_properties = bad; return "peripheral properties"; }
        2 => { let i = r.us(d.peripherals.len()); d.peripherals[i].name = "a b".into(); return "peripheral name"; }
        _ => {}
    }
    let i = r.us(d.peripherals.len());
    let regs = d.peripherals[i].registers.get_or_insert_with(Vec::new);
    if regs.is_empty() { let x = rc(r, 2); regs.push(x); }
    let Some(x) = pickrc(regs, r) else { return "none" };
    match x {
        RegisterCluster::Cluster(k) => match r.below(4) { 2 => { k.derived_from = None; k.children.clear(); "no children" } 3 => { k.derived_from = Some("A..b".into()); "cluster derivedFrom" } 0 => { k.default_register_properties = bad; "cluster properties" } _ => { k.name = "".into(); "cluster name" } },
        RegisterCluster::Register(x) => match r.below(10) {
            6 => { x.alternate_group = Some("a.b".into()); "alternate group" }
            7 => { x.alternate_register = Some("a-b".into()); "alternate register" }
            8 => { x.derived_from = Some("".into()); "register derivedFrom" }
            9 => { x.derived_from = None; x.fields = Some(vec![]); "empty field list" }
            0 => { x.properties = bad; "register properties" }
            1 => { x.name = "9".into(); "register name" }
            k => {
                let fs = x.fields.get_or_insert_with(Vec::new);
                if fs.is_empty() { fs.push(field(r)); }
                let j = r.us(fs.len());
                let f = &mut fs[j];
                match k {
                    2 => { f.bit_range.width = 0; "field width" }
                    3 => { f.bit_range.width = 3; f.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: 0, max: 8 })); "write constraint" }
                    _ => {
                        if f.enumerated_values.is_empty() { f.enumerated_values.push(evs(r, 0)); }
                        let e = &mut f.enumerated_values[0];
                        if k == 4 { e.derived_from = None; e.values = vec![]; "empty enumerated values" }
                        else { let mut v = ev(r, 0); v.value = None; v.is_default = None; e.values.push(v); "enumerated value without value" }
                    }
                }
            }
        },
    }
}
pub fn c21(c: &mut Ctx) {
    for _ in 0..c.n(4000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let mut d = if r.chance(1, 4) { device(r, 3) } else { strict_dev(r) };
        let what = if r.chance(3, 4) { break_dev(&mut d, r) } else { "nothing" };
        let l = lvl(r);
        let want = v_dev(&d, l);
        c.case(if want { "valid" } else { "invalid" }, true, &format!("{l:?} broken: {what}; {d:?}"), || {
            let g = d.validate_all(l);
            ensure(g.is_ok() == want, || format!("Device::validate_all gave {g:?}, required ok={want} (broken: {what})"))?;
            for p in &d.peripherals {
                let (w, g) = (v_per(p, l), p.validate_all(l));
                ensure(g.is_ok() == w, || format!("Peripheral::validate_all gave {g:?}, required ok={w} (broken: {what})"))?;
                for k in p.clusters() { let (w, g) = (v_cl(k, l), k.validate_all(l)); ensure(g.is_ok() == w, || format!("Cluster::validate_all gave {g:?}, required ok={w} (broken: {what})"))?; }
                for x in p.all_registers() {
                    let (w, g) = (v_reg(x, l), x.validate_all(l));
                    ensure(g.is_ok() == w, || format!("Register::validate_all gave {g:?}, required ok={w} (broken: {what})"))?;
                    for f in x.fields() {
                        let (w, g) = (v_field(f, l), f.validate_all(l));
                        ensure(g.is_ok() == w, || format!("Field::validate_all gave {g:?}, required ok={w} (broken: {what})"))?;
                        for e in &f.enumerated_values { let (w, g) = (v_evs(e, l), e.validate_all(l)); ensure(g.is_ok() == w, || format!("EnumeratedValues::validate_all gave {g:?}, required ok={w} (broken: {what})"))?; }
                    }
                }
            }
            Ok(())
        });
    }
}
