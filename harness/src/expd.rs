//! Whole-device expansion, derivedFrom resolution, element paths.
use crate::bld::*;
use crate::ctx::*;
use crate::gen::*;
use crate::tree::*;
use svd_parser::svd;
use svd_parser::expand::{self, BlockPath, EnumPath, FieldPath, Index, RegisterPath};
use svd::*;

type P = Vec<String>;
#[derive(Debug)]
pub enum Bad { Unresolved(String), TooDeep }
type R<T> = Result<T, Bad>;
fn bad<T>(m: impl Into<String>) -> R<T> { Err(Bad::Unresolved(m.into())) }

// ------------------------------------------------------------------ reference resolution on the source
fn names<T: svd::Name>(info: &T, d: Option<&DimElement>, name: &str) -> Vec<String> {
    let _ = info;
    let mut v = vec![name.to_string()];
    if let Some(d) = d { for i in idx(d) { v.push(nm(name, d, &i)); } }
    v
}
fn p_names(p: &Peripheral) -> Vec<String> { match p { MaybeArray::Single(i) => names(i, None, &i.name), MaybeArray::Array(i, d) => names(i, Some(d), &i.name) } }
fn c_names(p: &Cluster) -> Vec<String> { match p { MaybeArray::Single(i) => names(i, None, &i.name), MaybeArray::Array(i, d) => names(i, Some(d), &i.name) } }
fn r_names(p: &Register) -> Vec<String> { match p { MaybeArray::Single(i) => names(i, None, &i.name), MaybeArray::Array(i, d) => names(i, Some(d), &i.name) } }
fn f_names(p: &Field) -> Vec<String> { match p { MaybeArray::Single(i) => names(i, None, &i.name), MaybeArray::Array(i, d) => names(i, Some(d), &i.name) } }

fn find_per<'a>(d: &'a Device, n: &str) -> Option<&'a Peripheral> { d.peripherals.iter().find(|p| p_names(p).iter().any(|x| x == n)) }
fn find_cl<'a>(v: &'a [RegisterCluster], n: &str) -> Option<&'a Cluster> {
    v.iter().find_map(|x| match x { RegisterCluster::Cluster(c) if c_names(c).iter().any(|x| x == n) => Some(c), _ => None })
}
fn children<'a>(d: &'a Device, scope: &[String]) -> Option<&'a [RegisterCluster]> {
    let p = find_per(d, scope.first()?)?;
    let mut v: &[RegisterCluster] = p.registers.as_deref().unwrap_or(&[]);
    for n in &scope[1..] { v = &find_cl(v, n)?.children; }
    Some(v)
}
fn find_reg<'a>(d: &'a Device, scope: &[String], n: &str) -> Option<&'a Register> {
    children(d, scope)?.iter().find_map(|x| match x { RegisterCluster::Register(c) if r_names(c).iter().any(|x| x == n) => Some(c), _ => None })
}
/// `reg`: scope + register name
fn find_field<'a>(d: &'a Device, reg: &[String], n: &str) -> Option<&'a Field> {
    let (r, s) = reg.split_last()?;
    find_reg(d, s, r)?.fields.as_deref().unwrap_or(&[]).iter().find(|f| f_names(f).iter().any(|x| x == n))
}
fn find_evs<'a>(d: &'a Device, fp: &[String], n: &str) -> Option<&'a EnumeratedValues> {
    let (f, s) = fp.split_last()?;
    find_field(d, s, f)?.enumerated_values.iter().find(|e| e.name.as_deref() == Some(n))
}
fn plus(p: &[String], n: &str) -> P { let mut v = p.to_vec(); v.push(n.to_string()); v }
/// split a reference into the scope it is looked up in and its last name
fn split(dp: &str, scope: &[String]) -> (P, String) {
    let mut v: P = dp.split('.').map(|s| s.to_string()).collect();
    let n = v.pop().unwrap();
    (if v.is_empty() { scope.to_vec() } else { v }, n)
}

fn chain_per(d: &Device, p: &Peripheral) -> R<(Peripheral, P)> {
    let mut cur = p.clone();
    cur.derived_from = None;
    let mut content = p.registers.as_ref().map(|_| vec![p.name.clone()]);
    let mut dp = p.derived_from.clone();
    let mut seen: Vec<*const Peripheral> = vec![p];
    while let Some(n) = dp {
        let Some(e) = find_per(d, &n) else { return bad(format!("peripheral {n}")) };
        if seen.contains(&(e as *const _)) { return bad(format!("cycle at peripheral {n}")); }
        seen.push(e);
        if content.is_none() && e.registers.is_some() { content = Some(vec![n.clone()]); }
        let nn = cur.name.clone();
        cur = d_arr(&cur, e, &nn, d_per);
        cur.derived_from = None;
        dp = e.derived_from.clone();
    }
    Ok((cur, content.unwrap_or(vec![p.name.clone()])))
}
fn chain_cl(d: &Device, p: &Cluster, scope: &[String]) -> R<(Cluster, P)> {
    let mut cur = p.clone();
    cur.derived_from = None;
    let mut content = if p.children.is_empty() { None } else { Some(plus(scope, &p.name)) };
    let mut dp = p.derived_from.clone();
    let mut at = scope.to_vec();
    let mut seen: Vec<*const Cluster> = vec![];
    if let Some(e) = children(d, scope).and_then(|v| find_cl(v, &p.name)) { seen.push(e); }
    while let Some(n) = dp {
        let (s, n) = split(&n, &at);
        let Some(e) = children(d, &s).and_then(|v| find_cl(v, &n)) else { return bad(format!("cluster {n}")) };
        if seen.contains(&(e as *const _)) { return bad(format!("cycle at cluster {n}")); }
        seen.push(e);
        if content.is_none() && !e.children.is_empty() { content = Some(plus(&s, &n)); }
        let nn = cur.name.clone();
        cur = d_arr(&cur, e, &nn, d_cluster);
        cur.derived_from = None;
        dp = e.derived_from.clone();
        at = s;
    }
    Ok((cur, content.unwrap_or(plus(scope, &p.name))))
}
fn chain_reg(d: &Device, p: &Register, scope: &[String]) -> R<(Register, P)> {
    let mut cur = p.clone();
    cur.derived_from = None;
    let mut content = p.fields.as_ref().map(|_| plus(scope, &p.name));
    let mut dp = p.derived_from.clone();
    let mut at = scope.to_vec();
    let mut seen: Vec<*const Register> = vec![];
    if let Some(e) = find_reg(d, scope, &p.name) { seen.push(e); }
    while let Some(n) = dp {
        let (s, n) = split(&n, &at);
        let Some(e) = find_reg(d, &s, &n) else { return bad(format!("register {n}")) };
        if seen.contains(&(e as *const _)) { return bad(format!("cycle at register {n}")); }
        seen.push(e);
        if content.is_none() && e.fields.is_some() { content = Some(plus(&s, &n)); }
        let nn = cur.name.clone();
        cur = d_arr(&cur, e, &nn, d_reg);
        cur.derived_from = None;
        dp = e.derived_from.clone();
        at = s;
    }
    Ok((cur, content.unwrap_or(plus(scope, &p.name))))
}
fn chain_field(d: &Device, p: &Field, reg: &[String]) -> R<(Field, P)> {
    let mut cur = p.clone();
    cur.derived_from = None;
    let mut content = if p.enumerated_values.is_empty() { None } else { Some(plus(reg, &p.name)) };
    let mut dp = p.derived_from.clone();
    let mut at = reg.to_vec();
    let mut seen: Vec<*const Field> = vec![];
    if let Some(e) = find_field(d, reg, &p.name) { seen.push(e); }
    while let Some(n) = dp {
        let (s, n) = split(&n, &at);
        if s.len() < 2 { return bad(format!("incomplete path to field {n}")); }
        let Some(e) = find_field(d, &s, &n) else { return bad(format!("field {n}")) };
        if seen.contains(&(e as *const _)) { return bad(format!("cycle at field {n}")); }
        seen.push(e);
        if content.is_none() && !e.enumerated_values.is_empty() { content = Some(plus(&s, &n)); }
        let nn = cur.name.clone();
        cur = d_arr(&cur, e, &nn, d_field);
        cur.derived_from = None;
        dp = e.derived_from.clone();
        at = s;
    }
    Ok((cur, content.unwrap_or(plus(reg, &p.name))))
}
fn chain_evs(d: &Device, p: &EnumeratedValues, fp: &[String]) -> R<EnumeratedValues> {
    let mut cur = p.clone();
    cur.derived_from = None;
    let mut dp = p.derived_from.clone();
    let mut at = fp.to_vec();
    let mut seen: Vec<*const EnumeratedValues> = vec![];
    if let Some(e) = p.name.as_ref().and_then(|n| find_evs(d, fp, n)) { seen.push(e); }
    while let Some(n) = dp {
        let mut v: P = n.split('.').map(|s| s.to_string()).collect();
        let last = v.pop().unwrap();
        let reg = at[..at.len() - 1].to_vec();
        let fpath: P = match v.len() {
            0 => {
                let (rn, s) = reg.split_last().unwrap();
                let fs = find_reg(d, s, rn).and_then(|r| r.fields.as_deref()).unwrap_or(&[]);
                match fs.iter().find(|f| f.enumerated_values.iter().any(|e| e.name.as_ref() == Some(&last))) { Some(f) => plus(&reg, &f.name), None => return bad(format!("enumeratedValues {n}")) }
            }
            1 => plus(&reg, &v[0]),
            2 => { let mut x = reg[..reg.len() - 1].to_vec(); x.extend(v); x }
            _ => v,
        };
        let Some(e) = find_evs(d, &fpath, &last) else { return bad(format!("enumeratedValues {n}")) };
        if seen.contains(&(e as *const _)) { return bad(format!("cycle at enumeratedValues {n}")); }
        seen.push(e);
        cur = d_evs(&cur, e);
        cur.derived_from = None;
        dp = e.derived_from.clone();
        at = fpath;
    }
    Ok(cur)
}
fn rx_rc(d: &Device, out: &mut Vec<RegisterInfo>, x: &RegisterCluster, scope: &[String], depth: u32) -> R<()> {
    if depth > 40 { return Err(Bad::TooDeep); }
    match x {
        RegisterCluster::Cluster(c) => {
            let (c, sc) = chain_cl(d, c, scope)?;
            let mut inner = vec![];
            for k in &c.children { rx_rc(d, &mut inner, k, &sc, depth + 1)?; }
            let all = match &c { MaybeArray::Single(i) => vec![i.clone()], MaybeArray::Array(i, dim) => x_cluster(i, dim) };
            for c in all { for r in &inner { let mut r = r.clone(); r.name = format!("{}_{}", c.name, r.name); r.address_offset += c.address_offset; out.push(r); } }
        }
        RegisterCluster::Register(r) => {
            let (mut r, sc) = chain_reg(d, r, scope)?;
            if let Some(fs) = r.fields.take() {
                let mut o = vec![];
                for f in &fs {
                    let (mut f, fp) = chain_field(d, f, &sc)?;
                    let e = std::mem::take(&mut f.enumerated_values);
                    for e in e { let e = chain_evs(d, &e, &fp)?; f.enumerated_values.push(e); }
                    match &f { MaybeArray::Single(i) => o.push(Field::Single(i.clone())), MaybeArray::Array(i, dim) => o.extend(x_field(i, dim).into_iter().map(Field::Single)) }
                }
                r.fields = Some(o);
            }
            match &r { MaybeArray::Single(i) => out.push(i.clone()), MaybeArray::Array(i, dim) => out.extend(x_reg(i, dim)) }
        }
    }
    Ok(())
}
pub fn rx_device(d: &Device) -> R<Device> {
    let mut o = d.clone();
    o.peripherals = vec![];
    for p in &d.peripherals {
        let (mut p, sc) = chain_per(d, p)?;
        if let Some(v) = p.registers.take() {
            let mut n = vec![];
            for x in &v { rx_rc(d, &mut n, x, &sc, 0)?; }
            p.registers = Some(n.into_iter().map(|r| RegisterCluster::Register(Register::Single(r))).collect());
        }
        match &p { MaybeArray::Single(i) => o.peripherals.push(Peripheral::Single(i.clone())), MaybeArray::Array(i, dim) => o.peripherals.extend(x_per(i, dim).into_iter().map(Peripheral::Single)) }
    }
    Ok(o)
}

// ------------------------------------------------------------------ generation
/// how references are placed: out of 100
struct G { derive: u64, wrong: u64, cycle: bool }
fn sdim(r: &mut Rng) -> DimElement {
    let n = r.us(3) + if r.chance(1, 8) { 0 } else { 1 };
    let mut d = dim_base(n as u32, r.below(16) as u32);
    if r.chance(1, 3) && n > 0 { d.dim_index = Some((0..n).map(|i| format!("{}", (b'a' + i as u8) as char)).collect()); }
    d
}
fn arrname(r: &mut Rng, base: &str) -> String { match r.below(3) { 0 => format!("{base}%s"), 1 => format!("{base}[%s]"), _ => format!("{base}_%s_x") } }
fn gen_evs(r: &mut Rng, name: Option<String>, max: u64) -> EnumeratedValues {
    let mut e = evs(r, max);
    e.derived_from = None;
    e.name = name;
    e.values.truncate(2);
    if e.values.is_empty() { e.values.push(ev(r, max)); }
    e
}
fn gen_field(r: &mut Rng, base: &str, fi: usize) -> Field {
    let mut f = field_info(r);
    f.name = base.to_string();
    f.derived_from = None;
    f.bit_range.offset %= 64;
    f.bit_range.width = 1 + r.below(8) as u32;
    f.description = if r.coin() { Some("f %s".into()) } else { None };
    f.enumerated_values = (0..r.us(3)).map(|i| { let n = if r.chance(4, 5) { Some(format!("E{fi}{i}")) } else { None }; gen_evs(r, n, 1) }).collect();
    if r.chance(1, 5) { f.name = arrname(r, base); Field::Array(f, sdim(r)) } else { Field::Single(f) }
}
fn gen_reg(r: &mut Rng, base: &str) -> Register {
    let mut x = register_info(r);
    x.name = base.to_string();
    x.derived_from = None;
    x.address_offset %= 1 << 12;
    let n = r.us(3);
    x.fields = if r.chance(1, 3) { None } else { Some((0..n).map(|i| gen_field(r, &format!("F{i}"), i)).collect()) };
    if r.chance(1, 5) { x.name = arrname(r, base); Register::Array(x, sdim(r)) } else { Register::Single(x) }
}
fn gen_cluster(r: &mut Rng, base: &str, depth: u32) -> Cluster {
    let mut x = cluster_info(r, 0);
    x.name = base.to_string();
    x.derived_from = None;
    x.address_offset %= 1 << 12;
    x.children = if r.chance(1, 5) { vec![] } else { gen_rcs(r, depth) };
    if r.chance(1, 5) { x.name = arrname(r, base); Cluster::Array(x, sdim(r)) } else { Cluster::Single(x) }
}
fn gen_rcs(r: &mut Rng, depth: u32) -> Vec<RegisterCluster> {
    (0..r.us(4)).map(|i| if depth > 0 && r.chance(2, 5) { RegisterCluster::Cluster(gen_cluster(r, &format!("C{i}"), depth - 1)) } else { RegisterCluster::Register(gen_reg(r, &format!("R{i}"))) }).collect()
}
fn gen_dev(r: &mut Rng) -> Device {
    let mut d = device(r, 0);
    let n = 1 + r.us(3);
    d.peripherals = (0..n).map(|i| {
        let mut p = per_info(r, 0);
        p.derived_from = None;
        p.base_address %= 1 << 40;
        p.name = format!("P{i}");
        p.registers = if r.chance(1, 4) { None } else { Some(gen_rcs(r, 2)) };
        if r.chance(1, 5) { p.name = arrname(r, &format!("P{i}")); Peripheral::Array(p, sdim(r)) } else { Peripheral::Single(p) }
    }).collect();
    d
}
#[derive(Default)]
struct All { per: Vec<P>, cl: Vec<P>, reg: Vec<P>, field: Vec<P>, evs: Vec<P> }
fn collect_rcs(a: &mut All, v: &[RegisterCluster], scope: &[String]) {
    for x in v { match x {
        RegisterCluster::Cluster(c) => for n in c_names(c) { let p = plus(scope, &n); a.cl.push(p.clone()); collect_rcs(a, &c.children, &p); },
        RegisterCluster::Register(c) => for n in r_names(c) {
            let p = plus(scope, &n);
            a.reg.push(p.clone());
            for f in c.fields.iter().flatten() { for n in f_names(f) { let p = plus(&p, &n); a.field.push(p.clone()); for e in &f.enumerated_values { if let Some(n) = &e.name { a.evs.push(plus(&p, n)); } } } }
        },
    } }
}
fn all(d: &Device) -> All {
    let mut a = All::default();
    for p in &d.peripherals { for n in p_names(p) { let pt = vec![n]; a.per.push(pt.clone()); collect_rcs(&mut a, p.registers.as_deref().unwrap_or(&[]), &pt); } }
    a
}
fn refer(r: &mut Rng, targets: &[P], scope: &[String], g: &G) -> Option<String> {
    if r.below(100) >= g.derive { return None; }
    if r.below(100) < g.wrong { return Some(r.pick(&["Nope", "P0.Nope", "Nope.R0", "R0.F0", "P0.C0.R9", "P0.R0.F7", "F0", "C0", "R0", "P0", ".", "", "P0.", "a.b.c.d.e"]).to_string()); }
    if targets.is_empty() { return None; }
    // prefer something in the same scope, by its bare name
    let near: Vec<&P> = targets.iter().filter(|t| t.len() == scope.len() + 1 && t[..scope.len()] == *scope).collect();
    if !near.is_empty() && r.coin() { let t = *r.pick(&near); return Some(if r.chance(2, 3) { t.last().unwrap().clone() } else { t.join(".") }); }
    Some(r.pick(targets).join("."))
}
fn place_rcs(r: &mut Rng, v: &mut Vec<RegisterCluster>, scope: &[String], a: &All, g: &G) {
    for x in v { match x {
        RegisterCluster::Cluster(c) => {
            c.derived_from = refer(r, &a.cl, scope, g);
            let s = plus(scope, &c.name);
            place_rcs(r, &mut c.children, &s, a, g);
        }
        RegisterCluster::Register(c) => {
            c.derived_from = refer(r, &a.reg, scope, g);
            let s = plus(scope, &c.name);
            for f in c.fields.iter_mut().flatten() {
                f.derived_from = refer(r, &a.field, &s, g);
                let fp = plus(&s, &f.name);
                for e in &mut f.enumerated_values {
                    // by EVNAME, FIELD.EVNAME, REG.FIELD.EVNAME or full path
                    if r.below(100) >= g.derive { continue; }
                    if r.below(100) < g.wrong { e.derived_from = Some(r.pick(&["Nope", "F0.Nope", "R0.F9.E00", "P0.R0.F0.Nope", "P9.R0.F0.E00"]).to_string()); continue; }
                    let k = r.below(4) as usize;
                    let near: Vec<&P> = a.evs.iter().filter(|t| match k { 0 | 1 => t.len() == s.len() + 2 && t[..s.len()] == *s, 2 => t.len() == s.len() + 2 && t[..s.len() - 1] == s[..s.len() - 1], _ => true }).collect();
                    if near.is_empty() { continue; }
                    let t = *r.pick(&near);
                    let dp = match k { 0 => t[t.len() - 1..].join("."), 1 => t[t.len() - 2..].join("."), 2 => t[t.len() - 3..].join("."), _ => t.join(".") };
                    // a set naming itself is ambiguous with a same-named one elsewhere in the register
                    let _ = &fp;
                    e.derived_from = Some(dp);
                    if r.coin() { e.values = vec![]; }
                }
            }
        }
    } }
}
fn place(r: &mut Rng, d: &mut Device, g: &G) {
    let a = all(d);
    for p in &mut d.peripherals {
        p.derived_from = refer(r, &a.per, &[], g);
        let s = vec![p.name.clone()];
        if let Some(v) = p.registers.as_mut() { place_rcs(r, v, &s, &a, g); }
    }
    let _ = g.cycle;
}
fn norm(d: &mut Device) { for p in &mut d.peripherals { for x in p.registers.iter_mut().flatten() { if let RegisterCluster::Register(x) = x { for f in x.fields.iter_mut().flatten() { f.bit_range.range_type = BitRangeType::OffsetWidth; } } } } }
fn flat(d: &Device) -> Result<(), String> {
    for p in &d.peripherals {
        ensure(matches!(p, MaybeArray::Single(_)) && p.derived_from.is_none(), || format!("peripheral {} is an array or derived", p.name))?;
        for x in p.registers.iter().flatten() { match x {
            RegisterCluster::Cluster(c) => return Err(format!("cluster {} left", c.name)),
            RegisterCluster::Register(x) => {
                ensure(matches!(x, MaybeArray::Single(_)) && x.derived_from.is_none(), || format!("register {} is an array or derived", x.name))?;
                for f in x.fields.iter().flatten() {
                    ensure(matches!(f, MaybeArray::Single(_)) && f.derived_from.is_none(), || format!("field {} is an array or derived", f.name))?;
                    for e in &f.enumerated_values { ensure(e.derived_from.is_none(), || "enumerated values still derived".into())?; }
                }
            }
        } }
    }
    Ok(())
}
fn short(d: &Device) -> String {
    fn dims<T>(m: &MaybeArray<T>) -> String { match m { MaybeArray::Single(_) => String::new(), MaybeArray::Array(_, d) => format!("*{}{}", d.dim, d.dim_index.as_ref().map(|v| v.join(",")).unwrap_or_default()) } }
    fn df(o: &Option<String>) -> String { o.as_ref().map(|x| format!("<-{x:?}")).unwrap_or_default() }
    fn rcs(v: &[RegisterCluster]) -> String {
        v.iter().map(|x| match x {
            RegisterCluster::Cluster(c) => format!("cluster {}{}{}{{{}}}", c.name, dims(c), df(&c.derived_from), rcs(&c.children)),
            RegisterCluster::Register(c) => format!("register {}{}{}{}", c.name, dims(c), df(&c.derived_from), c.fields.as_ref().map(|v| format!("({})", v.iter().map(|f| format!("{}{}{}[{}]", f.name, dims(f), df(&f.derived_from), f.enumerated_values.iter().map(|e| format!("{}{}/{}", e.name.clone().unwrap_or_default(), df(&e.derived_from), e.values.len())).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(" "))).unwrap_or_default()),
        }).collect::<Vec<_>>().join("; ")
    }
    d.peripherals.iter().map(|p| format!("peripheral {}{}{}{}", p.name, dims(p), df(&p.derived_from), p.registers.as_ref().map(|v| format!("{{{}}}", rcs(v))).unwrap_or_default())).collect::<Vec<_>>().join(" || ")
}
fn deep(d: &Device) -> bool { matches!(rx_device(d), Err(Bad::TooDeep)) }

fn diff(got: &Device, want: &Device) -> Result<(), String> {
    if got == want { return Ok(()); }
    let (a, b) = (format!("{got:?}"), format!("{want:?}"));
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| { let mut st = i.saturating_sub(160).min(s.len()); while !s.is_char_boundary(st) { st -= 1; } let mut e = (i + 160).min(s.len()); while !s.is_char_boundary(e) { e += 1; } s[st..e.max(st)].to_string() };
    Err(format!("expanded device differs: observed ...{}..., the property requires ...{}...", cut(&a), cut(&b)))
}
fn judge(d: &Device) -> Result<(), String> {
    let want = rx_device(d);
    let got = expand::expand(d);
    match (got, want) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("expanded although it must be reported: {e:?}")),
        (Err(e), Ok(_)) => Err(format!("reported {e:?} although every reference can be resolved")),
        (Ok(mut g), Ok(mut w)) => { flat(&g)?; norm(&mut g); norm(&mut w); diff(&g, &w) }
    }
}
/// reading a document with the expansions switched on is reading it and then applying them
pub fn through_parser(c: &mut Ctx, n: u64) {
    use svd_parser::{parse_with_config, Config};
    for k in 0..c.n(n) {
        if c.stop() { break; }
        let mut d = gen_dev(&mut c.rng);
        let g = G { derive: if k % 2 == 0 { 0 } else { 15 }, wrong: (k % 8 == 7) as u64, cycle: false };
        place(&mut c.rng, &mut d, &g);
        d.default_register_properties.size = Some(32);
        let s = crate::xml::doc(&crate::xml::device_x(&d, &mut crate::xml::Style { r: None }), None);
        let (xp, ex) = (c.rng.coin(), c.rng.coin());
        let k = Config::default().validate_level(ValidateLevel::Disabled);
        let Ok(base) = parse_with_config(&s, &k) else { continue };
        c.case("through-the-parser", true, &format!("expand_properties {xp} expand {ex} {s}"), || {
            let mut b = base.clone();
            if xp { svd_parser::expand_properties(&mut b); }
            let want = if ex { svd_parser::expand(&b) } else { Ok(b) };
            let got = parse_with_config(&s, &k.expand_properties(xp).expand(ex));
            match (got, want) {
                (Ok(g), Ok(w)) => ensure(g == w, || format!("parsed {} the property requires {}", short(&g), short(&w))),
                (Err(_), Err(_)) => Ok(()),
                (g, w) => Err(format!("parsing gave ok={}, the property requires ok={}", g.is_ok(), w.is_ok())),
            }
        });
    }
}
pub fn c16(c: &mut Ctx) {
    through_parser(c, 400);
    for k in 0..c.n(2500) {
        if c.stop() { break; }
        let mut d = gen_dev(&mut c.rng);
        let g = G { derive: if k % 2 == 0 { 0 } else { 15 }, wrong: 0, cycle: false };
        place(&mut c.rng, &mut d, &g);
        if rx_device(&d).is_err() { continue; }
        c.case(if k % 2 == 0 { "without-references" } else { "with-references" }, true, &short(&d), || judge(&d));
    }
}
fn ctx_case(c: &mut Ctx, kind: &str, d: &Device) { c.case(kind, true, &short(d), || judge(d)); }
fn per(n: &str, regs: Vec<RegisterCluster>) -> Peripheral { let mut p = per_base(n, 0x100); p.registers = Some(regs); Peripheral::Single(p) }
fn simple() -> Device {
    let mut d = dev_base("D");
    d.peripherals = vec![];
    for pn in ["A", "B", "C"] {
        let mut v = vec![];
        for rn in ["A", "B", "C"] {
            let mut r = reg_base(rn, 4);
            r.description = Some(format!("{pn}.{rn}"));
            r.fields = Some(["A", "B", "C"].iter().map(|f| { let mut f = field_base(f, BitRange::from_offset_width(0, 4)); f.enumerated_values = ["A", "B"].iter().map(|n| { let mut e = EnumeratedValues::builder().build(L).unwrap(); e.name = Some(n.to_string()); let mut q = EnumeratedValue::builder().name("v".into()).value(Some(1)).build(L).unwrap(); q.description = Some(format!("{pn}.{rn}.{}.{n}", f.name)); e.values = vec![q]; e }).collect(); Field::Single(f) }).collect());
            v.push(RegisterCluster::Register(Register::Single(r)));
        }
        for cn in ["K", "L"] {
            let mut x = cluster_base(cn, 0x20);
            for rn in ["A", "B"] { let mut r = reg_base(rn, 4); r.description = Some(format!("{pn}.{cn}.{rn}")); x.children.push(RegisterCluster::Register(Register::Single(r))); }
            let mut y = cluster_base("K", 0x40);
            let mut r = reg_base("A", 8); r.description = Some(format!("{pn}.{cn}.K.A")); y.children.push(RegisterCluster::Register(Register::Single(r)));
            x.children.push(RegisterCluster::Cluster(Cluster::Single(y)));
            v.push(RegisterCluster::Cluster(Cluster::Single(x)));
        }
        d.peripherals.push(per(pn, v));
    }
    d
}
pub fn c17(c: &mut Ctx) {
    through_parser(c, 400);
    // 1. short chains and cycles between elements that share names, everywhere a reference can stand
    let names = ["A", "B", "C"];
    for _ in 0..c.n(6000) {
        if c.stop() { break; }
        let mut d = simple();
        let r = &mut c.rng;
        let whole = r.below(9);
        let n = if whole < 5 { 1 + r.us(4) } else { 2 + r.us(4) };
        for _ in 0..n {
            // references of one kind, or of all kinds at once (shells that lead to content with references of its own)
            let kind = if whole < 5 { whole } else { [0, 1, 2, 3, 4, 4, 5, 5][r.us(8)] };
            let (pi, ri, fi) = (r.us(3), r.us(3), r.us(3));
            let (p2, r2, f2) = (r.us(3), r.us(3), r.us(3));
            let keep = if whole < 5 { r.coin() } else { r.chance(1, 4) };
            let p = &mut d.peripherals[pi];
            match kind {
                0 => { p.derived_from = Some(names[p2].into()); if !keep { p.registers = None; } }
                1 => if let Some(RegisterCluster::Register(x)) = p.registers.as_mut().and_then(|v| v.get_mut(ri)) {
                    x.derived_from = Some(if r.coin() { names[r2].to_string() } else { format!("{}.{}", names[p2], names[r2]) });
                    if !keep { x.fields = None; }
                },
                2 => if let Some(RegisterCluster::Register(x)) = p.registers.as_mut().and_then(|v| v.get_mut(ri)) {
                    if let Some(f) = x.fields.as_mut().and_then(|v| v.get_mut(fi)) {
                        f.derived_from = Some(match r.below(4) { 0 | 1 => names[f2].to_string(), 2 => format!("{}.{}.{}", names[p2], names[r2], names[f2]), _ => format!("{}.{}", names[r2], names[f2]) });
                        if !keep { f.enumerated_values = vec![]; }
                    }
                },
                3 => if let Some(RegisterCluster::Register(x)) = p.registers.as_mut().and_then(|v| v.get_mut(ri)) {
                    if let Some(f) = x.fields.as_mut().and_then(|v| v.get_mut(fi)) {
                        let ei = r.us(2);
                        if let Some(e) = f.enumerated_values.get_mut(ei) {
                            let t = names[r.us(2)];
                            e.derived_from = Some(match r.below(4) { 0 => t.to_string(), 1 => format!("{}.{t}", names[f2]), 2 => format!("{}.{}.{t}", names[r2], names[f2]), _ => format!("{}.{}.{}.{t}", names[p2], names[r2], names[f2]) });
                            // the bare own name is read as the set itself by some and as a namesake by others
                            if e.derived_from == e.name { e.derived_from = None; }
                            if !keep { e.values = vec![]; }
                        }
                    }
                },
                5 => {
                    // a register of a cluster, from beside it
                    let ci = 3 + r.us(2);
                    let (a, b) = (r.us(2), r.us(2));
                    if let Some(RegisterCluster::Cluster(x)) = p.registers.as_mut().and_then(|v| v.get_mut(ci)) {
                        if let Some(RegisterCluster::Register(y)) = x.children.get_mut(a) {
                            y.description = None;
                            y.derived_from = Some(if r.chance(3, 4) { names[b].to_string() } else { format!("{}.{}.{}", names[p2], r.pick(&["K", "L"]), names[b]) });
                        }
                    }
                }
                _ => {
                    let inner = r.coin();
                    let tgt = match r.below(4) { 0 => "K".to_string(), 1 => "L".to_string(), 2 => format!("{}.{}", names[p2], r.pick(&["K", "L"])), _ => format!("{}.{}.K", names[p2], r.pick(&["K", "L"])) };
                    let ci = 3 + r.us(2);
                    if let Some(RegisterCluster::Cluster(x)) = p.registers.as_mut().and_then(|v| v.get_mut(ci)) {
                        if inner { if let Some(RegisterCluster::Cluster(y)) = x.children.get_mut(2) { y.derived_from = Some(tgt); if !keep { y.children = vec![]; } } }
                        else { x.derived_from = Some(tgt); if !keep { x.children = vec![]; } }
                    }
                }
            }
        }
        ctx_case(c, ["peripheral-chain", "register-chain", "field-chain", "enum-chain", "cluster-chain", "mixed", "mixed", "mixed", "mixed"][whole as usize], &d);
    }
    // 2. chains of shells that end at content with a reference of its own
    for _ in 0..c.n(2000) {
        if c.stop() { break; }
        let mut d = simple();
        let r = &mut c.rng;
        let kind = r.below(4);
        let n = 2 + r.us(2);
        // places: (peripheral, index in it, index in the register)
        let mut v: Vec<(usize, usize, usize)> = vec![];
        while v.len() < n {
            let t = match kind { 0 => (v.len(), 0, 0), 1 => (r.us(3), 3 + r.us(2), 0), 2 => (r.us(3), r.us(3), 0), _ => (r.us(3), r.us(3), r.us(3)) };
            if !v.contains(&t) { v.push(t); }
        }
        if kind == 0 { r.shuffle(&mut v); }
        let el = ["A", "B", "C", "K", "L"];
        for k in 0..n {
            let (pi, ri, fi) = v[k];
            let last = k + 1 == n;
            let to = if last { (0, 0, 0) } else { v[k + 1] };
            let keep = last || r.chance(1, 8);
            let near = r.coin();
            let (a, b) = (r.us(2), r.us(2));
            let p = &mut d.peripherals[pi];
            if kind == 0 {
                if !keep { p.registers = None; }
                if !last { p.derived_from = Some(el[to.0].into()); continue; }
            }
            match &mut p.registers.as_mut().unwrap()[ri] {
                RegisterCluster::Cluster(x) => {
                    if !keep { x.children = vec![]; }
                    if !last { x.derived_from = Some(if to.0 == pi && near { el[to.1].into() } else { format!("{}.{}", el[to.0], el[to.1]) }); }
                    else if near { if let RegisterCluster::Register(y) = &mut x.children[a] { y.description = None; y.derived_from = Some(el[1 - a].into()); } }
                    else if let RegisterCluster::Cluster(y) = &mut x.children[2] { if let RegisterCluster::Register(y) = &mut y.children[0] { y.derived_from = Some(format!("{}.K.{}", el[b], el[a])); y.description = None; } }
                }
                RegisterCluster::Register(x) => {
                    if kind != 3 && !keep { x.fields = None; }
                    if kind == 2 && !last { x.derived_from = Some(if to.0 == pi && near { el[to.1].into() } else { format!("{}.{}", el[to.0], el[to.1]) }); continue; }
                    if kind == 0 {
                        x.derived_from = Some(el[1 + a].into());
                        x.description = None;
                        continue;
                    }
                    let Some(fs) = x.fields.as_mut() else { continue };
                    let f = &mut fs[fi];
                    if kind == 3 && !keep { f.enumerated_values = vec![]; }
                    if kind == 3 && !last { f.derived_from = Some(if to.0 == pi && to.1 == ri && near { el[to.2].into() } else { format!("{}.{}.{}", el[to.0], el[to.1], el[to.2]) }); continue; }
                    if kind == 2 && near { f.derived_from = Some(el[(fi + 1 + a) % 3].into()); f.enumerated_values = vec![]; continue; }
                    let e = &mut f.enumerated_values[a];
                    e.values = vec![];
                    e.derived_from = Some(if near { el[1 - a].into() } else { format!("{}.{}", el[(fi + 1 + b) % 3], el[a]) });
                }
            }
        }
        ctx_case(c, "shells", &d);
    }
    // 3. random devices
    for k in 0..c.n(4000) {
        if c.stop() { break; }
        let mut d = gen_dev(&mut c.rng);
        let g = G { derive: if k % 2 == 0 { 12 } else { 35 }, wrong: if k % 3 == 0 { 12 } else { 0 }, cycle: true };
        place(&mut c.rng, &mut d, &g);
        if skip(&d) { continue; }
        let kind = if rx_device(&d).is_ok() { "resolvable" } else { "unresolvable" };
        ctx_case(c, kind, &d);
    }
}
/// cases the property leaves open: an enumeratedValues set derived from its own bare name
fn skip(d: &Device) -> bool {
    let _ = deep;
    d.peripherals.iter().any(|p| p.all_registers().any(|r| r.fields.iter().flatten().any(|f| f.enumerated_values.iter().any(|e| e.derived_from.is_some() && e.derived_from == e.name))))
}

// ------------------------------------------------------------------ paths
pub fn c23(c: &mut Ctx) {
    for _ in 0..c.n(20000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let comp = |r: &mut Rng| -> String { match r.below(6) { 0 => String::new(), 1 => "A".into(), 2 => "AB".into(), 3 => "é%s".into(), _ => ident(r) } };
        let n = r.us(4);
        let v: P = (0..n).map(|_| comp(r)).collect();
        let per = comp(r);
        let (rn, fname, en) = (comp(r), comp(r), comp(r));
        let mut b = BlockPath::new(per.clone());
        for x in &v { b = b.new_cluster(x.clone()); }
        let rp = b.new_register(rn.clone());
        let fp = rp.new_field(fname.clone());
        let ep = fp.new_enum(en.clone());
        let mut bc = vec![per.clone()]; bc.extend(v.clone());
        let rc = plus(&bc, &rn); let fc = plus(&rc, &fname); let ec = plus(&fc, &en);
        let other: String = match r.below(7) {
            0 => bc.join("."), 1 => rc.join("."), 2 => fc.join("."), 3 => ec.join("."),
            4 => { let mut o = ec.clone(); let i = r.us(o.len()); o[i] = comp(r); let k = r.us(4); o.truncate(o.len() - k); o.join(".") }
            5 => { let mut o = [bc.clone(), rc.clone(), fc.clone()][r.us(3)].clone(); let i = r.us(o.len() + 1); o.insert(i, comp(r)); o.join(".") }
            _ => (0..r.us(5)).map(|_| comp(r)).collect::<Vec<_>>().join("."),
        };
        c.case("path", true, &format!("{:?} against {other:?}", ec), || {
            eq(&b.to_string(), &bc.join("."), "block path text")?;
            eq(&rp.to_string(), &rc.join("."), "register path text")?;
            eq(&fp.to_string(), &fc.join("."), "field path text")?;
            eq(&ep.to_string(), &ec.join("."), "enumerated values path text")?;
            eq(&(b == *other.as_str()), &(bc.join(".") == other), "block path equals text")?;
            eq(&(rp == *other.as_str()), &(rc.join(".") == other), "register path equals text")?;
            eq(&(fp == *other.as_str()), &(fc.join(".") == other), "field path equals text")?;
            eq(&(ep == *other.as_str()), &(ec.join(".") == other), "enumerated values path equals text")?;
            let parts: P = other.split('.').map(|s| s.to_string()).collect();
            let (last, scope) = parts.split_last().unwrap();
            let mk = |s: &[String]| -> Option<BlockPath> { let mut it = s.iter(); let mut b = BlockPath::new(it.next()?.clone()); for x in it { b = b.new_cluster(x.clone()); } Some(b) };
            eq(&BlockPath::parse_str(&other), &(mk(scope), last.as_str()), "BlockPath::parse_str")?;
            eq(&RegisterPath::parse_str(&other), &(mk(scope), last.as_str()), "RegisterPath::parse_str")?;
            if scope.len() != 1 {
                let w = scope.split_last().map(|(rn, bs)| RegisterPath::new(mk(bs).unwrap(), rn.clone()));
                eq(&FieldPath::parse_str(&other), &(w, last.as_str()), "FieldPath::parse_str")?;
            }
            eq(&b.parent().map(|p| p.to_string()), &if v.is_empty() { None } else { Some(bc[..bc.len() - 1].join(".")) }, "parent")?;
            if let Some(l) = v.last() { eq(b.name(), l, "name")?; }
            eq(&(rp.peripheral(), fp.peripheral(), ep.peripheral()), &(&per, &per, &per), "peripheral")?;
            eq(&(fp.register(), ep.register(), ep.field()), &(&rp, &rp, &fp), "enclosing path")?;
            let _: (&EnumPath, Option<Index>) = (&ep, None);
            Ok(())
        });
    }
}
