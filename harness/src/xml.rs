//! An independent description of the SVD file format: element tree <-> device, own writer, own comparator.
use crate::ctx::Rng;
use svd_parser::svd;
use svd::*;

#[derive(Clone, Debug, PartialEq)]
pub struct X {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<X>,
    pub text: Option<String>,
}
pub const NUM: &[&str] = &["dim", "dimIncrement", "baseAddress", "addressOffset", "offset", "size", "value", "resetValue", "resetMask", "bitOffset", "bitWidth", "lsb", "msb", "minimum", "maximum", "nvicPrioBits", "deviceNumInterrupts", "sauNumRegions", "addressUnitBits", "width"];
pub const NAMELIKE: &[&str] = &["name", "alternatePeripheral", "prependToName", "appendToName", "headerStructName", "alternateCluster", "alternateRegister", "headerEnumName"];

pub fn leaf(tag: &str, t: impl Into<String>) -> X { X { tag: tag.into(), attrs: vec![], kids: vec![], text: Some(t.into()) } }
pub fn node(tag: &str, kids: Vec<X>) -> X { X { tag: tag.into(), attrs: vec![], kids, text: None } }
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;") }

pub struct Style<'a> { pub r: Option<&'a mut Rng> }
impl<'a> Style<'a> {
    fn num(&mut self, v: u64) -> String {
        match self.r.as_mut().map(|r| r.below(6)) {
            Some(0) => format!("0x{v:x}"),
            Some(1) => format!("0X{v:08X}"),
            Some(2) => format!("#{v:b}"),
            Some(3) => format!("0b{v:b}"),
            _ => v.to_string(),
        }
    }
    fn boolean(&mut self, v: bool) -> String {
        match self.r.as_mut().map(|r| r.coin()) { Some(true) => (if v { "1" } else { "0" }).into(), _ => v.to_string() }
    }
}
fn ot(k: &mut Vec<X>, tag: &str, v: &Option<String>) { if let Some(v) = v { k.push(leaf(tag, v.clone())); } }
fn props_x(k: &mut Vec<X>, p: &RegisterProperties, s: &mut Style) {
    if let Some(v) = p.size { k.push(leaf("size", s.num(v as u64))); }
    if let Some(v) = p.access { k.push(leaf("access", access_k(v))); }
    if let Some(v) = p.protection { k.push(leaf("protection", prot_k(v))); }
    if let Some(v) = p.reset_value { k.push(leaf("resetValue", s.num(v))); }
    if let Some(v) = p.reset_mask { k.push(leaf("resetMask", s.num(v))); }
}
fn access_k(v: Access) -> &'static str { match v { Access::ReadOnly => "read-only", Access::ReadWrite => "read-write", Access::ReadWriteOnce => "read-writeOnce", Access::WriteOnce => "writeOnce", Access::WriteOnly => "write-only" } }
fn prot_k(v: Protection) -> &'static str { match v { Protection::Secure => "s", Protection::NonSecure => "n", Protection::Privileged => "p" } }
fn usage_k(v: Usage) -> &'static str { match v { Usage::Read => "read", Usage::Write => "write", Usage::ReadWrite => "read-write" } }
fn mwv_k(v: ModifiedWriteValues) -> &'static str { use ModifiedWriteValues::*; match v { OneToClear => "oneToClear", OneToSet => "oneToSet", OneToToggle => "oneToToggle", ZeroToClear => "zeroToClear", ZeroToSet => "zeroToSet", ZeroToToggle => "zeroToToggle", Clear => "clear", Set => "set", Modify => "modify" } }
fn ra_k(v: ReadAction) -> &'static str { match v { ReadAction::Clear => "clear", ReadAction::Set => "set", ReadAction::Modify => "modify", ReadAction::ModifyExternal => "modifyExternal" } }
fn dt_k(v: DataType) -> &'static str { use DataType::*; match v { U8 => "uint8_t", U16 => "uint16_t", U32 => "uint32_t", U64 => "uint64_t", I8 => "int8_t", I16 => "int16_t", I32 => "int32_t", I64 => "int64_t", U8Ptr => "uint8_t *", U16Ptr => "uint16_t *", U32Ptr => "uint32_t *", U64Ptr => "uint64_t *", I8Ptr => "int8_t *", I16Ptr => "int16_t *", I32Ptr => "int32_t *", I64Ptr => "int64_t *" } }
fn endian_k(v: Endian) -> &'static str { match v { Endian::Little => "little", Endian::Big => "big", Endian::Selectable => "selectable", Endian::Other => "other" } }
fn abu_k(v: AddressBlockUsage) -> &'static str { match v { AddressBlockUsage::Registers => "registers", AddressBlockUsage::Buffer => "buffer", AddressBlockUsage::Reserved => "reserved" } }

pub fn wc_x(w: &WriteConstraint, s: &mut Style) -> X {
    node("writeConstraint", vec![match w {
        WriteConstraint::WriteAsRead(b) => leaf("writeAsRead", s.boolean(*b)),
        WriteConstraint::UseEnumeratedValues(b) => leaf("useEnumeratedValues", s.boolean(*b)),
        WriteConstraint::Range(r) => node("range", vec![leaf("minimum", s.num(r.min)), leaf("maximum", s.num(r.max))]),
    }])
}
pub fn ev_x(e: &EnumeratedValue, s: &mut Style) -> X {
    let mut k = vec![leaf("name", e.name.clone())];
    ot(&mut k, "description", &e.description);
    if let Some(v) = e.value { k.push(leaf("value", s.num(v))); }
    if let Some(v) = e.is_default { k.push(leaf("isDefault", s.boolean(v))); }
    node("enumeratedValue", k)
}
fn derived(mut x: X, d: &Option<String>) -> X { if let Some(d) = d { x.attrs.push(("derivedFrom".into(), d.clone())); } x }
pub fn evs_x(e: &EnumeratedValues, s: &mut Style) -> X {
    let mut k = vec![];
    ot(&mut k, "name", &e.name);
    if let Some(u) = e.usage { k.push(leaf("usage", usage_k(u))); }
    for v in &e.values { k.push(ev_x(v, s)); }
    derived(node("enumeratedValues", k), &e.derived_from)
}
fn dim_x(k: &mut Vec<X>, d: &DimElement, s: &mut Style) {
    k.push(leaf("dim", s.num(d.dim as u64)));
    k.push(leaf("dimIncrement", s.num(d.dim_increment as u64)));
    if let Some(v) = &d.dim_index {
        let c: Option<Vec<u32>> = v.iter().map(|x| crate::ints::canon(x)).collect();
        let t = match c { Some(c) if c.windows(2).all(|w| w[0] as u64 + 1 == w[1] as u64) => format!("{}-{}", c[0], c[c.len() - 1]), _ => v.join(",") };
        k.push(leaf("dimIndex", t));
    }
    ot(k, "dimName", &d.dim_name);
    if let Some(a) = &d.dim_array_index {
        let mut kk = vec![];
        ot(&mut kk, "headerEnumName", &a.header_enum_name);
        for e in &a.values { kk.push(ev_x(e, s)); }
        k.push(node("dimArrayIndex", kk));
    }
}
fn arr<T>(m: &MaybeArray<T>, s: &mut Style, f: impl FnOnce(&T, &mut Style) -> X) -> X {
    match m {
        MaybeArray::Single(i) => f(i, s),
        MaybeArray::Array(i, d) => { let mut k = vec![]; dim_x(&mut k, d, s); let mut x = f(i, s); k.append(&mut x.kids); x.kids = k; x }
    }
}
pub fn br_x(k: &mut Vec<X>, b: &BitRange, t: BitRangeType, s: &mut Style) {
    let msb = b.offset as u64 + b.width as u64 - 1;
    match t {
        BitRangeType::BitRange => k.push(leaf("bitRange", format!("[{}:{}]", msb, b.offset))),
        BitRangeType::MsbLsb => { k.push(leaf("lsb", s.num(b.offset as u64))); k.push(leaf("msb", s.num(msb))); }
        BitRangeType::OffsetWidth => { k.push(leaf("bitOffset", s.num(b.offset as u64))); k.push(leaf("bitWidth", s.num(b.width as u64))); }
    }
}
pub fn field_x(f: &Field, s: &mut Style) -> X {
    arr(f, s, |f, s| {
        let mut k = vec![leaf("name", f.name.clone())];
        ot(&mut k, "description", &f.description);
        br_x(&mut k, &f.bit_range, f.bit_range.range_type, s);
        if let Some(v) = f.access { k.push(leaf("access", access_k(v))); }
        if let Some(v) = f.modified_write_values { k.push(leaf("modifiedWriteValues", mwv_k(v))); }
        if let Some(v) = &f.write_constraint { k.push(wc_x(v, s)); }
        if let Some(v) = f.read_action { k.push(leaf("readAction", ra_k(v))); }
        for e in &f.enumerated_values { k.push(evs_x(e, s)); }
        derived(node("field", k), &f.derived_from)
    })
}
pub fn reg_x(r: &Register, s: &mut Style) -> X {
    arr(r, s, |r, s| {
        let mut k = vec![leaf("name", r.name.clone())];
        ot(&mut k, "displayName", &r.display_name);
        ot(&mut k, "description", &r.description);
        ot(&mut k, "alternateGroup", &r.alternate_group);
        ot(&mut k, "alternateRegister", &r.alternate_register);
        k.push(leaf("addressOffset", s.num(r.address_offset as u64)));
        props_x(&mut k, &r.properties, s);
        if let Some(v) = r.datatype { k.push(leaf("dataType", dt_k(v))); }
        if let Some(v) = r.modified_write_values { k.push(leaf("modifiedWriteValues", mwv_k(v))); }
        if let Some(v) = &r.write_constraint { k.push(wc_x(v, s)); }
        if let Some(v) = r.read_action { k.push(leaf("readAction", ra_k(v))); }
        if let Some(v) = &r.fields { k.push(node("fields", v.iter().map(|f| field_x(f, s)).collect())); }
        derived(node("register", k), &r.derived_from)
    })
}
pub fn cluster_x(c: &Cluster, s: &mut Style) -> X {
    arr(c, s, |c, s| {
        let mut k = vec![leaf("name", c.name.clone())];
        ot(&mut k, "description", &c.description);
        ot(&mut k, "alternateCluster", &c.alternate_cluster);
        ot(&mut k, "headerStructName", &c.header_struct_name);
        k.push(leaf("addressOffset", s.num(c.address_offset as u64)));
        props_x(&mut k, &c.default_register_properties, s);
        for x in &c.children { k.push(rc_x(x, s)); }
        derived(node("cluster", k), &c.derived_from)
    })
}
pub fn rc_x(x: &RegisterCluster, s: &mut Style) -> X { match x { RegisterCluster::Register(r) => reg_x(r, s), RegisterCluster::Cluster(c) => cluster_x(c, s) } }
pub fn per_x(p: &Peripheral, s: &mut Style) -> X {
    arr(p, s, |p, s| {
        let mut k = vec![leaf("name", p.name.clone())];
        ot(&mut k, "displayName", &p.display_name);
        ot(&mut k, "version", &p.version);
        ot(&mut k, "description", &p.description);
        ot(&mut k, "alternatePeripheral", &p.alternate_peripheral);
        ot(&mut k, "groupName", &p.group_name);
        ot(&mut k, "prependToName", &p.prepend_to_name);
        ot(&mut k, "appendToName", &p.append_to_name);
        ot(&mut k, "headerStructName", &p.header_struct_name);
        k.push(leaf("baseAddress", s.num(p.base_address)));
        props_x(&mut k, &p.default_register_properties, s);
        if let Some(v) = &p.address_block {
            for b in v {
                let mut kk = vec![leaf("offset", s.num(b.offset as u64)), leaf("size", s.num(b.size as u64)), leaf("usage", abu_k(b.usage))];
                if let Some(p) = b.protection { kk.push(leaf("protection", prot_k(p))); }
                k.push(node("addressBlock", kk));
            }
        }
        for i in &p.interrupt {
            let mut kk = vec![leaf("name", i.name.clone())];
            ot(&mut kk, "description", &i.description);
            kk.push(leaf("value", s.num(i.value as u64)));
            k.push(node("interrupt", kk));
        }
        if let Some(v) = &p.registers { k.push(node("registers", v.iter().map(|x| rc_x(x, s)).collect())); }
        derived(node("peripheral", k), &p.derived_from)
    })
}
pub fn device_x(d: &Device, s: &mut Style) -> X {
    let mut k = vec![];
    ot(&mut k, "vendor", &d.vendor);
    ot(&mut k, "vendorID", &d.vendor_id);
    k.push(leaf("name", d.name.clone()));
    ot(&mut k, "series", &d.series);
    k.push(leaf("version", d.version.clone()));
    k.push(leaf("description", d.description.clone()));
    ot(&mut k, "licenseText", &d.license_text);
    if let Some(c) = &d.cpu {
        let mut kk = vec![leaf("name", c.name.clone()), leaf("revision", c.revision.clone()), leaf("endian", endian_k(c.endian)), leaf("mpuPresent", s.boolean(c.mpu_present)), leaf("fpuPresent", s.boolean(c.fpu_present))];
        for (t, v) in [("fpuDP", c.fpu_double_precision), ("dspPresent", c.dsp_present), ("icachePresent", c.icache_present), ("dcachePresent", c.dcache_present), ("itcmPresent", c.itcm_present), ("dtcmPresent", c.dtcm_present), ("vtorPresent", c.vtor_present)] {
            if let Some(v) = v { kk.push(leaf(t, s.boolean(v))); }
        }
        kk.push(leaf("nvicPrioBits", s.num(c.nvic_priority_bits as u64)));
        kk.push(leaf("vendorSystickConfig", s.boolean(c.has_vendor_systick)));
        if let Some(v) = c.device_num_interrupts { kk.push(leaf("deviceNumInterrupts", s.num(v as u64))); }
        if let Some(v) = c.sau_num_regions { kk.push(leaf("sauNumRegions", s.num(v as u64))); }
        k.push(node("cpu", kk));
    }
    ot(&mut k, "headerSystemFilename", &d.header_system_filename);
    ot(&mut k, "headerDefinitionsPrefix", &d.header_definitions_prefix);
    k.push(leaf("addressUnitBits", s.num(d.address_unit_bits as u64)));
    k.push(leaf("width", s.num(d.width as u64)));
    props_x(&mut k, &d.default_register_properties, s);
    k.push(node("peripherals", d.peripherals.iter().map(|p| per_x(p, s)).collect()));
    let mut x = node("device", k);
    x.attrs = vec![("schemaVersion".into(), d.schema_version.clone()), ("xmlns:xs".into(), d.xmlns_xs.clone()), ("xs:noNamespaceSchemaLocation".into(), d.no_namespace_schema_location.clone())];
    x
}
/// reorder children of different tags (their relative order carries no meaning in SVD)
pub fn reorder(x: &mut X, r: &mut Rng) {
    for k in &mut x.kids { reorder(k, r); }
    if x.tag == "registers" || x.kids.iter().any(|k| k.tag == "register" || k.tag == "cluster") && x.tag != "peripheral" { return; }
    let mut tags: Vec<String> = vec![];
    for k in &x.kids { if !tags.contains(&k.tag) { tags.push(k.tag.clone()); } }
    r.shuffle(&mut tags);
    let old = std::mem::take(&mut x.kids);
    for t in tags { for k in &old { if k.tag == t { x.kids.push(k.clone()); } } }
}
pub fn write(x: &X, out: &mut String, r: &mut Option<&mut Rng>, depth: usize) {
    let pad = |out: &mut String, d: usize, r: &mut Option<&mut Rng>| match r { Some(r) => if r.coin() { out.push('\n'); for _ in 0..d { out.push_str("  "); } }, None => { out.push('\n'); for _ in 0..d { out.push_str("  "); } } };
    if depth > 0 { pad(out, depth, r); }
    if let Some(rr) = r { if depth > 0 && rr.chance(1, 30) { out.push_str("<!-- a comment -->"); } }
    out.push_str(&format!("<{}", x.tag));
    for (k, v) in &x.attrs { out.push_str(&format!(" {}=\"{}\"", k, esc(v))); }
    out.push('>');
    if let Some(t) = &x.text {
        let sp = x.tag != "bitRange" && r.as_mut().map_or(false, |r| r.chance(1, 4));
        if sp { out.push_str("\n  "); }
        out.push_str(&esc(t));
        if sp { out.push_str("\t "); }
    }
    for k in &x.kids { write(k, out, r, depth + 1); }
    if !x.kids.is_empty() { pad(out, depth, r); }
    out.push_str(&format!("</{}>", x.tag));
}
pub fn doc(x: &X, mut r: Option<&mut Rng>) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
    write(x, &mut s, &mut r, 0);
    s
}
pub fn from_rox(n: roxmltree::Node) -> X {
    let kids: Vec<X> = n.children().filter(|c| c.is_element()).map(from_rox).collect();
    let text = if kids.is_empty() { n.text().map(|t| t.trim().to_string()) } else { None };
    X { tag: n.tag_name().name().into(), attrs: n.attributes().map(|a| (a.name().to_string(), a.value().to_string())).collect(), kids, text }
}
pub fn num(t: &str) -> Option<u64> {
    if let Some(h) = t.strip_prefix("0x").or(t.strip_prefix("0X")) { u64::from_str_radix(h, 16).ok() }
    else if let Some(b) = t.strip_prefix("0b").or(t.strip_prefix('#')) { u64::from_str_radix(b, 2).ok() }
    else { t.parse().ok() }
}
fn fold(s: &str) -> String { s.chars().filter(|c| !matches!(c, '_' | '-' | ' ')).flat_map(|c| c.to_lowercase()).collect() }
/// Do `got` and `want` say the same? (numbers by value; children of different tags in any order;
/// names modulo case and separators when the configuration renames)
pub fn same(got: &X, want: &X, rename: bool) -> Result<(), String> {
    if got.tag != want.tag { return Err(format!("<{}> instead of <{}>", got.tag, want.tag)); }
    let here = |m: String| format!("<{}>: {m}", want.tag);
    let gt = got.text.clone().unwrap_or_default();
    let wt = want.text.clone().unwrap_or_default();
    if want.kids.is_empty() && got.kids.is_empty() {
        let ok = if NUM.contains(&want.tag.as_str()) { num(&gt) == num(&wt) && num(&gt).is_some() }
            else if rename && NAMELIKE.contains(&want.tag.as_str()) { fold(&gt) == fold(&wt) } else { gt == wt };
        if !ok { return Err(here(format!("text {gt:?} instead of {wt:?}"))); }
    }
    let mut ga: Vec<(String, String)> = got.attrs.iter().map(|(k, v)| (k.rsplit(':').next().unwrap().to_string(), v.clone())).filter(|a| a.0 != "xs").collect();
    let mut wa: Vec<(String, String)> = want.attrs.iter().map(|(k, v)| (k.rsplit(':').next().unwrap().to_string(), v.clone())).filter(|a| a.0 != "xs").collect();
    if rename { for a in ga.iter_mut().chain(wa.iter_mut()) { if a.0 == "derivedFrom" { a.1 = fold(&a.1); } } }
    ga.sort(); wa.sort();
    if ga != wa { return Err(here(format!("attributes {ga:?} instead of {wa:?}"))); }
    let mut tags: Vec<&String> = want.kids.iter().chain(got.kids.iter()).map(|k| &k.tag).collect();
    tags.sort(); tags.dedup();
    for t in tags {
        let g: Vec<&X> = got.kids.iter().filter(|k| &k.tag == t).collect();
        let w: Vec<&X> = want.kids.iter().filter(|k| &k.tag == t).collect();
        if g.len() != w.len() { return Err(here(format!("{} <{t}> children instead of {}", g.len(), w.len()))); }
        for (a, b) in g.iter().zip(w.iter()) { same(a, b, rename).map_err(|e| here(e))?; }
    }
    // registers and clusters: mutual document order
    let seq = |x: &X| x.kids.iter().filter(|k| k.tag == "register" || k.tag == "cluster").map(|k| k.tag.clone()).collect::<Vec<_>>();
    if seq(got) != seq(want) { return Err(here("register/cluster order".into())); }
    Ok(())
}
