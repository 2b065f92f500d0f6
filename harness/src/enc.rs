//! Encoder: number formats, sorting, encode->parse, options.
use crate::ctx::*;
use crate::gen::*;
use crate::xml::*;
use svd_encoder::{Config, DerivableSorting, IdentifierFormat, NumberFormat, RcSorting, Sorting};
use svd_parser::svd;
use svd::*;

const NF: [NumberFormat; 8] = [NumberFormat::UpperHex, NumberFormat::UpperHex8, NumberFormat::UpperHex16, NumberFormat::LowerHex, NumberFormat::LowerHex8, NumberFormat::LowerHex16, NumberFormat::Dec, NumberFormat::Bin];
const NFN: [&str; 8] = ["UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin"];
const IFN: [&str; 4] = ["Camel", "Pascal", "Snake", "Constant"];
const IFV: [IdentifierFormat; 4] = [IdentifierFormat::Camel, IdentifierFormat::Pascal, IdentifierFormat::Snake, IdentifierFormat::Constant];

/// own rendering of a number in a named format
fn digits(mut v: u64, radix: u64, upper: bool) -> String {
    let mut s = vec![];
    loop { let d = (v % radix) as u8; s.push(if d < 10 { b'0' + d } else if upper { b'A' + d - 10 } else { b'a' + d - 10 }); v /= radix; if v == 0 { break; } }
    s.reverse();
    String::from_utf8(s).unwrap()
}
fn pad(s: String, n: usize) -> String { let mut o = String::new(); for _ in s.len()..n { o.push('0'); } o + &s }
fn render(v: u64, f: NumberFormat) -> String {
    match f {
        NumberFormat::UpperHex => format!("0x{}", digits(v, 16, true)),
        NumberFormat::UpperHex8 => format!("0x{}", pad(digits(v, 16, true), 8)),
        NumberFormat::UpperHex16 => format!("0x{}", pad(digits(v, 16, true), if v > 0xFFFF_FFFF { 16 } else { 8 })),
        NumberFormat::LowerHex => format!("0x{}", digits(v, 16, false)),
        NumberFormat::LowerHex8 => format!("0x{}", pad(digits(v, 16, false), 8)),
        NumberFormat::LowerHex16 => format!("0x{}", pad(digits(v, 16, false), if v > 0xFFFF_FFFF { 16 } else { 8 })),
        NumberFormat::Dec => digits(v, 10, false),
        NumberFormat::Bin => format!("0b{}", digits(v, 2, false)),
    }
}
fn enc(d: &Device, c: &Config) -> Result<String, String> { svd_encoder::encode_with_config(d, c).map_err(|e| format!("encoding failed: {e:?}")) }
fn tree(s: &str) -> Result<X, String> {
    let d = roxmltree::Document::parse(s).map_err(|e| format!("the encoder wrote ill-formed XML: {e}"))?;
    Ok(from_rox(d.root_element()))
}
fn sub<'a>(x: &'a X, path: &[&str]) -> Result<&'a X, String> {
    let mut x = x;
    for p in path { x = x.kids.iter().find(|k| k.tag == *p).ok_or_else(|| format!("no <{p}> in <{}>", x.tag))?; }
    Ok(x)
}

pub fn c11(c: &mut Ctx) {
    for _ in 0..c.n(3000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let f: Vec<NumberFormat> = (0..11).map(|_| *r.pick(&NF)).collect();
        let v: Vec<u64> = (0..12).map(|i| if matches!(i, 0 | 6 | 7 | 8) { r.num64() } else { r.num32() as u64 }).collect();
        let cfg = Config::default().peripheral_base_address(f[0]).address_block_offset(f[1]).address_block_size(f[2]).cluster_address_offset(f[3]).register_address_offset(f[4])
            .register_size(f[5]).register_reset_value(f[6]).register_reset_mask(f[7]).enumerated_value_value(f[8]).dim_dim(f[9]).dim_increment(f[10]);
        let mut d = dev_base("D");
        let mut p = per_base("P", v[0]);
        let mut b = ab(r);
        b.offset = v[1] as u32; b.size = v[2] as u32;
        p.address_block = Some(vec![b]);
        let mut k = cluster_base("K", v[3] as u32);
        k.children = vec![];
        let mut x = reg_base("R", v[4] as u32);
        x.properties.size = Some(v[5] as u32);
        x.properties.reset_value = Some(v[6]);
        x.properties.reset_mask = Some(v[7]);
        let mut fl = field_base("F", BitRange::from_offset_width(0, 4));
        let mut e = EnumeratedValue::builder().name("n".into()).build(L).unwrap();
        e.value = Some(v[8]);
        let mut es = EnumeratedValues::builder().build(L).unwrap();
        es.values = vec![e];
        fl.enumerated_values = vec![es];
        x.fields = Some(vec![Field::Single(fl)]);
        let mut y = reg_base("A%s", 0);
        y.properties.size = None;
        let dm = dim_base(v[9] as u32, v[10] as u32);
        let _ = &mut y;
        p.registers = Some(vec![RegisterCluster::Register(Register::Single(x)), RegisterCluster::Cluster(Cluster::Single(k)), RegisterCluster::Register(Register::Array(y, dm))]);
        d.peripherals = vec![Peripheral::Single(p)];
        c.case("document", true, &format!("{:?} {:?}", &v[..11], f), || {
            let s = enc(&d, &cfg)?;
            let t = tree(&s)?;
            let per = sub(&t, &["peripherals", "peripheral"])?;
            let regs = sub(per, &["registers"])?;
            let two: Vec<&X> = regs.kids.iter().filter(|k| k.tag == "register").collect();
            let at: Vec<(&str, &X)> = vec![("base address", sub(per, &["baseAddress"])?), ("address block offset", sub(per, &["addressBlock", "offset"])?), ("address block size", sub(per, &["addressBlock", "size"])?), ("cluster offset", sub(regs, &["cluster", "addressOffset"])?),
                ("register offset", sub(two[0], &["addressOffset"])?), ("register size", sub(two[0], &["size"])?), ("reset value", sub(two[0], &["resetValue"])?), ("reset mask", sub(two[0], &["resetMask"])?),
                ("enumerated value", sub(two[0], &["fields", "field", "enumeratedValues", "enumeratedValue", "value"])?), ("dim", sub(two[1], &["dim"])?), ("dim increment", sub(two[1], &["dimIncrement"])?)];
            for (i, (what, x)) in at.iter().enumerate() {
                let w = render(v[i], f[i]);
                ensure(x.text.as_deref() == Some(w.as_str()), || format!("{what} {} in format {:?} is written {:?}, the format promises {w:?}", v[i], f[i], x.text))?;
                let xml = format!("<e>{}</e>", x.text.clone().unwrap());
                let dd = roxmltree::Document::parse(&xml).unwrap();
                eq(&<u64 as svd_parser::Parse>::parse(&dd.root_element(), &()).ok(), &Some(v[i]), "number read back")?;
            }
            let mut o = svd_parser::Config::default().validate_level(L);
            let _ = &mut o;
            let g = svd_parser::parse_with_config(&s, &o).map_err(|e| format!("{e:#}"))?;
            eq(&g, &d, "device read back")
        });
    }
}

// ------------------------------------------------------------------ sorting
fn psort(r: &mut Rng) -> DerivableSorting {
    let s = match r.below(4) { 0 => None, 1 => Some(Sorting::Offset), 2 => Some(Sorting::OffsetReversed), _ => Some(Sorting::Name) };
    if r.coin() { DerivableSorting::Unchanged(s) } else { DerivableSorting::DeriveLast(s) }
}
/// own stable insertion sort of indexes
fn order<K>(n: usize, d: DerivableSorting, derived: impl Fn(usize) -> bool, addr: impl Fn(usize) -> u64, name: impl Fn(usize) -> K) -> Vec<usize> where K: Ord {
    let (s, last) = match d { DerivableSorting::Unchanged(s) => (s, false), DerivableSorting::DeriveLast(s) => (s, true) };
    let before = |a: usize, b: usize| -> bool {
        if last && derived(a) != derived(b) { return derived(b); }
        match s { None => false, Some(Sorting::Offset) => addr(a) < addr(b), Some(Sorting::OffsetReversed) => addr(a) > addr(b), Some(_) => name(a) < name(b) }
    };
    let mut v: Vec<usize> = vec![];
    for i in 0..n { let mut k = v.len(); while k > 0 && before(i, v[k - 1]) { k -= 1; } v.insert(k, i); }
    v
}
fn addr32(r: &mut Rng) -> u32 { match r.below(4) { 0 => r.below(4) as u32 * 4, 1 => *r.pick(&[0u32, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF, 4]), _ => r.num32() } }
pub fn c22(c: &mut Ctx) {
    for _ in 0..c.n(3000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let (ps, fs) = (psort(r), psort(r));
        let inner = psort(r);
        let rs = match r.below(3) { 0 => RcSorting::Unchanged(inner), 1 => RcSorting::RegistersFirst(inner), _ => RcSorting::ClustersFirst(inner) };
        let cfg = Config::default().peripheral_sorting(ps).field_sorting(fs).register_cluster_sorting(rs);
        let mut d = dev_base("D");
        let n = r.us(7);
        let names = ["A", "B", "a", "AB", "B", "Z", "_", "A%s"];
        d.peripherals = (0..n).map(|_| {
            let mut p = per_base(r.pick(&names), match r.below(5) { 0 => r.below(3), 1 => *r.pick(&[0x8000_0000u64, 0x7FFF_FFFF, 0x1_0000_0000, 0xFFFF_FFFF_0000_0000, u64::MAX, 1 << 63, (1 << 63) - 1]), 2 => r.num32() as u64, _ => r.num64() });
            p.description = Some(format!("{}", r.next() % 1000));
            p.derived_from = if r.chance(1, 3) { Some("Q".into()) } else { None };
            let m = r.us(6);
            p.registers = if r.chance(1, 5) { None } else { Some((0..m).map(|_| if r.chance(1, 3) {
                let mut k = cluster_base(r.pick(&names), addr32(r));
                k.description = Some(format!("{}", r.next() % 1000));
                k.derived_from = if r.chance(1, 3) { Some("Q".into()) } else { None };
                k.children = (0..r.us(3)).map(|_| RegisterCluster::Register(Register::Single(reg_base(r.pick(&names), addr32(r))))).collect();
                RegisterCluster::Cluster(Cluster::Single(k))
            } else {
                let mut x = reg_base(r.pick(&names), addr32(r));
                x.description = Some(format!("{}", r.next() % 1000));
                x.derived_from = if r.chance(1, 3) { Some("Q".into()) } else { None };
                let q = 1 + r.us(5);
                x.fields = if r.coin() { None } else { Some((0..q).map(|_| {
                    let mut f = field_base(r.pick(&names), BitRange::from_offset_width(addr32(r) / 2 + r.below(3) as u32, 1));
                    if r.chance(1, 3) { f.bit_range.offset = u32::MAX - r.below(4) as u32; }
                    f.description = Some(format!("{}", r.next() % 1000));
                    f.derived_from = if r.chance(1, 4) { Some("Q".into()) } else { None };
                    f.enumerated_values = (0..r.us(3)).map(|_| { let mut e = evs(r, 1); if r.coin() { e.derived_from = None; } e }).collect();
                    f.bit_range.range_type = BitRangeType::OffsetWidth;
                    if r.chance(1, 5) { Field::Array(f, dim_base(2, 1)) } else { Field::Single(f) }
                }).collect()) };
                if r.chance(1, 5) { RegisterCluster::Register(Register::Array(x, dim_base(2, 4))) } else { RegisterCluster::Register(Register::Single(x)) }
            }).collect()) };
            if r.chance(1, 5) { Peripheral::Array(p, dim_base(2, 4)) } else { Peripheral::Single(p) }
        }).collect();
        // the required arrangement, as a device
        let mut w = d.clone();
        for p in &mut w.peripherals {
            if let Some(v) = p.registers.as_mut() {
                for x in v.iter_mut() { if let RegisterCluster::Register(x) = x { if let Some(v) = x.fields.as_mut() {
                    let o = order(v.len(), fs, |i| v[i].derived_from.is_some() || v[i].enumerated_values.iter().any(|e| e.derived_from.is_some()), |i| v[i].bit_range.offset as u64, |i| v[i].name.clone());
                    let old = v.clone();
                    *v = o.into_iter().map(|i| old[i].clone()).collect();
                } } }
                let isreg = |x: &RegisterCluster| matches!(x, RegisterCluster::Register(_));
                let groups: Vec<Vec<RegisterCluster>> = match rs {
                    RcSorting::Unchanged(_) => vec![v.clone()],
                    RcSorting::RegistersFirst(_) => vec![v.iter().filter(|x| isreg(x)).cloned().collect(), v.iter().filter(|x| !isreg(x)).cloned().collect()],
                    RcSorting::ClustersFirst(_) => vec![v.iter().filter(|x| !isreg(x)).cloned().collect(), v.iter().filter(|x| isreg(x)).cloned().collect()],
                };
                let df = |x: &RegisterCluster| match x { RegisterCluster::Register(x) => x.derived_from.is_some(), RegisterCluster::Cluster(x) => x.derived_from.is_some() };
                let ad = |x: &RegisterCluster| match x { RegisterCluster::Register(x) => x.address_offset as u64, RegisterCluster::Cluster(x) => x.address_offset as u64 };
                let nm = |x: &RegisterCluster| match x { RegisterCluster::Register(x) => x.name.clone(), RegisterCluster::Cluster(x) => x.name.clone() };
                *v = groups.into_iter().flat_map(|g| order(g.len(), inner, |i| df(&g[i]), |i| ad(&g[i]), |i| nm(&g[i])).into_iter().map(move |i| g[i].clone()).collect::<Vec<_>>()).collect();
            }
        }
        let o = order(w.peripherals.len(), ps, |i| w.peripherals[i].derived_from.is_some(), |i| w.peripherals[i].base_address, |i| w.peripherals[i].name.clone());
        let old = w.peripherals.clone();
        w.peripherals = o.into_iter().map(|i| old[i].clone()).collect();
        c.case("device", d.peripherals.len() > 1, &format!("{ps:?} {rs:?} {fs:?} {:?}", d.peripherals), || {
            let s = enc(&d, &cfg)?;
            let t = tree(&s)?;
            same(&t, &device_x(&strip(&w), &mut Style { r: None }), false)
        });
    }
}
/// what the format cannot express: an empty list of fields
fn strip(d: &Device) -> Device {
    fn rcs(v: &mut Vec<RegisterCluster>) { for x in v { match x { RegisterCluster::Register(x) => if x.fields.as_ref().map_or(false, |v| v.is_empty()) { x.fields = None; }, RegisterCluster::Cluster(k) => rcs(&mut k.children) } } }
    let mut d = d.clone();
    for p in &mut d.peripherals { if let Some(v) = p.registers.as_mut() { rcs(v); } }
    d
}

// ------------------------------------------------------------------ encode -> parse
fn numcfg(r: &mut Rng) -> (Config, String) {
    let mut cfg = Config::default();
    let mut log = String::new();
    for k in ["peripheral_base_address", "address_block_offset", "address_block_size", "cluster_address_offset", "register_address_offset", "register_size", "register_reset_value", "register_reset_mask", "enumerated_value_value", "dim_dim", "dim_increment"] {
        if r.chance(1, 3) { let v = *r.pick(&NFN); cfg.update(k, v); log.push_str(&format!("{k}={v} ")); }
    }
    (cfg, log)
}
pub fn c24(c: &mut Ctx) {
    for _ in 0..c.n(1500) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 3);
        let (mut cfg, mut log) = numcfg(r);
        let brf = r.opt(|r| *r.pick(&["BitRange", "OffsetWidth", "MsbLsb"]));
        if let Some(b) = brf { cfg.update("field_bit_range", b); log.push_str(b); }
        let mut want = d.clone();
        if let Some(b) = brf {
            let t = match b { "BitRange" => BitRangeType::BitRange, "OffsetWidth" => BitRangeType::OffsetWidth, _ => BitRangeType::MsbLsb };
            fn set(v: &mut Vec<RegisterCluster>, t: BitRangeType) { for x in v { match x { RegisterCluster::Register(x) => for f in x.fields.iter_mut().flatten() { f.bit_range.range_type = t; }, RegisterCluster::Cluster(k) => set(&mut k.children, t) } } }
            for p in &mut want.peripherals { if let Some(v) = p.registers.as_mut() { set(v, t); } }
        }
        c.case("round-trip", true, &format!("{log} {d:?}"), || {
            let s = enc(&d, &cfg)?;
            let mut w = device_x(&want, &mut Style { r: None });
            let _ = &mut w;
            same(&tree(&s)?, &w, false)?;
            let g = svd_parser::parse(&s).map_err(|e| format!("the parser rejects what was encoded: {e:#}"))?;
            eq(&g, &want, "device read back")
        });
        // any configuration: every property exactly once
        let r = &mut c.rng;
        let mut log = log;
        let mut ren = false;
        for k in ["peripheral_name", "interrupt_name", "cluster_name", "register_name", "field_name", "enumerated_values_name", "enumerated_value_name", "dim_array_index_header_enum_name"] {
            if r.chance(1, 2) { let v = *r.pick(&IFN); cfg.update(k, v); ren = true; log.push_str(&format!("{k}={v} ")); }
        }
        c.case("renaming", ren, &format!("{log} {d:?}"), || {
            let s = enc(&d, &cfg)?;
            same(&tree(&s)?, &device_x(&want, &mut Style { r: None }), true)
        });
    }
}

// ------------------------------------------------------------------ options
fn show(c: &Config) -> Vec<(String, String)> {
    // "name: value" pairs of the settings, by observation of the public settings
    let brf = { let s = format!("{:?}", c.field_bit_range); s };
    vec![
        ("peripheral_name", format!("{:?}", c.peripheral_name)), ("peripheral_base_address", format!("{:?}", c.peripheral_base_address)), ("peripheral_sorting", format!("{:?}", c.peripheral_sorting)),
        ("address_block_offset", format!("{:?}", c.address_block_offset)), ("address_block_size", format!("{:?}", c.address_block_size)), ("interrupt_name", format!("{:?}", c.interrupt_name)),
        ("cluster_name", format!("{:?}", c.cluster_name)), ("cluster_address_offset", format!("{:?}", c.cluster_address_offset)), ("register_cluster_sorting", format!("{:?}", c.register_cluster_sorting)),
        ("register_name", format!("{:?}", c.register_name)), ("register_address_offset", format!("{:?}", c.register_address_offset)), ("register_size", format!("{:?}", c.register_size)),
        ("register_reset_value", format!("{:?}", c.register_reset_value)), ("register_reset_mask", format!("{:?}", c.register_reset_mask)), ("field_name", format!("{:?}", c.field_name)),
        ("field_bit_range", brf), ("field_sorting", format!("{:?}", c.field_sorting)), ("enumerated_values_name", format!("{:?}", c.enumerated_values_name)), ("enumerated_value_name", format!("{:?}", c.enumerated_value_name)),
        ("enumerated_value_value", format!("{:?}", c.enumerated_value_value)), ("dim_dim", format!("{:?}", c.dim_dim)), ("dim_increment", format!("{:?}", c.dim_increment)), ("dim_array_index_header_enum_name", format!("{:?}", c.dim_array_index_header_enum_name)),
    ].into_iter().map(|(a, b)| (a.to_string(), b)).collect()
}
fn sorting_text(r: &mut Rng) -> (String, DerivableSorting) {
    let s = r.below(4);
    let l = r.coin();
    let mut parts: Vec<&str> = vec![];
    let so = match s { 0 => None, 1 => { parts.push("Offset"); Some(Sorting::Offset) } 2 => { parts.push("OffsetReversed"); Some(Sorting::OffsetReversed) } _ => { parts.push("Name"); Some(Sorting::Name) } };
    if l { let i = r.us(parts.len() + 1); parts.insert(i, "DerivedLast"); }
    (parts.join(","), if l { DerivableSorting::DeriveLast(so) } else { DerivableSorting::Unchanged(so) })
}
pub fn c27(c: &mut Ctx) {
    const IDS: [&str; 8] = ["peripheral_name", "interrupt_name", "cluster_name", "register_name", "field_name", "enumerated_values_name", "enumerated_value_name", "dim_array_index_header_enum_name"];
    const NUMS: [&str; 11] = ["peripheral_base_address", "address_block_offset", "address_block_size", "cluster_address_offset", "register_address_offset", "register_size", "register_reset_value", "register_reset_mask", "enumerated_value_value", "dim_dim", "dim_increment"];
    for _ in 0..c.n(6000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let n = 1 + r.us(4);
        let mut steps: Vec<(String, String, String, bool)> = vec![]; // name, value, expected debug, via setter
        for _ in 0..n {
            match r.below(6) {
                0 => { let k = r.us(4); let s = r.chance(1, 2); let id = *r.pick(&IDS); steps.push((id.into(), IFN[k].into(), format!("Some({:?})", IFV[k]), s && id != "dim_array_index_header_enum_name")); }
                1 | 2 => { let k = r.us(8); let s = r.coin(); steps.push((r.pick(&NUMS).to_string(), NFN[k].into(), format!("{:?}", NF[k]), s)); }
                3 => { let k = *r.pick(&["BitRange", "OffsetWidth", "MsbLsb"]); steps.push(("field_bit_range".into(), k.into(), format!("Some(FieldBitRangeFormat({k}))"), r.coin())); }
                4 => {
                    let (t, s) = sorting_text(r);
                    if r.coin() { steps.push((r.pick(&["peripheral_sorting", "field_sorting"]).to_string(), t, format!("{s:?}"), r.coin())); }
                    else {
                        let mut p: Vec<&str> = if t.is_empty() { vec![] } else { t.split(',').collect() };
                        let w = match r.below(3) { 0 => RcSorting::Unchanged(s), 1 => { let i = r.us(p.len() + 1); p.insert(i, "RegistersFirst"); RcSorting::RegistersFirst(s) } _ => { let i = r.us(p.len() + 1); p.insert(i, "ClustersFirst"); RcSorting::ClustersFirst(s) } };
                        steps.push(("register_cluster_sorting".into(), p.join(","), format!("{w:?}"), r.coin()));
                    }
                }
                5 if r.coin() => { let id = *r.pick(&IDS[..7]); steps.push((id.into(), "(none)".into(), "None".into(), true)); }
                _ => steps.push((r.pick(&["", "peripheral", "nope", "Register_name", "registername", "device_name", "peripheral_name "]).to_string(), "Snake".into(), String::new(), false)),
            }
        }
        c.case("option", true, &format!("{steps:?}"), || {
            let mut cfg = Config::default();
            let mut want = show(&cfg);
            for (n, v, d, setter) in &steps {
                if *setter {
                    let idf = IFN.iter().position(|x| x == v).map(|i| IFV[i]);
                    let nf = NFN.iter().position(|x| x == v).map(|i| NF[i]);
                    let ds = || v.parse::<DerivableSorting>().unwrap();
                    cfg = match n.as_str() {
                        "peripheral_name" => cfg.peripheral_name(idf), "interrupt_name" => cfg.interrupt_name(idf), "cluster_name" => cfg.cluster_name(idf), "register_name" => cfg.register_name(idf),
                        "field_name" => cfg.field_name(idf), "enumerated_values_name" => cfg.enumerated_values_name(idf), "enumerated_value_name" => cfg.enumerated_value_name(idf),
                        "peripheral_base_address" => cfg.peripheral_base_address(nf.unwrap()), "address_block_offset" => cfg.address_block_offset(nf.unwrap()), "address_block_size" => cfg.address_block_size(nf.unwrap()),
                        "cluster_address_offset" => cfg.cluster_address_offset(nf.unwrap()), "register_address_offset" => cfg.register_address_offset(nf.unwrap()), "register_size" => cfg.register_size(nf.unwrap()),
                        "register_reset_value" => cfg.register_reset_value(nf.unwrap()), "register_reset_mask" => cfg.register_reset_mask(nf.unwrap()), "enumerated_value_value" => cfg.enumerated_value_value(nf.unwrap()),
                        "dim_dim" => cfg.dim_dim(nf.unwrap()), "dim_increment" => cfg.dim_increment(nf.unwrap()),
                        "peripheral_sorting" => cfg.peripheral_sorting(ds()), "field_sorting" => cfg.field_sorting(ds()),
                        "field_bit_range" => { let mut t = Config::default(); t.update(n, v); let b = t.field_bit_range; cfg.field_bit_range(b) }
                        _ => cfg.register_cluster_sorting(v.parse().unwrap()),
                    };
                } else { cfg.update(n, v); }
                if let Some(w) = want.iter_mut().find(|w| &w.0 == n) { w.1 = d.clone(); }
                let g = show(&cfg);
                for (a, b) in g.iter().zip(&want) { ensure(a == b, || format!("after setting {n}={v}: {} is {}, required {}", a.0, a.1, b.1))?; }
            }
            Ok(())
        });
    }
}
