use crate::ctx::*;
use crate::gen::*;
use crate::xml::*;
use svd_parser::svd;
use svd_parser::{Config, Parse};
use svd::*;

fn perr<T>(r: anyhow::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

/// reference reading of an integer text (already trimmed)
pub fn ref_num(t: &str, bits: u32) -> Option<u64> {
    let (digits, radix): (String, u32) = if let Some(h) = t.strip_prefix("0x").or(t.strip_prefix("0X")) { (h.into(), 16) }
        else if let Some(b) = t.strip_prefix('#').or(t.strip_prefix("0b")) { (b.chars().map(|c| if c == 'x' || c == 'X' { '0' } else { c }).collect(), 2) }
        else { (t.into(), 10) };
    // the standard integer grammar also allows one leading '+'
    let d = digits.strip_prefix('+').unwrap_or(&digits);
    if d.is_empty() { return None; }
    let mut v: u128 = 0;
    for c in d.chars() {
        v = v.checked_mul(radix as u128)? + c.to_digit(radix)? as u128;
        if v >= 1u128 << 100 { return None; }
    }
    if v < 1u128 << bits { Some(v as u64) } else { None }
}

pub fn c10(c: &mut Ctx) {
    let pieces = ["0", "1", "9", "a", "F", "x", "X", "0x", "0X", "#", "0b", "0B", "-", "+", " ", "_", "é", "f", "00", "0110", "x1"];
    for _ in 0..c.n(60000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let big = |r: &mut Rng| -> u128 { match r.below(6) { 0 => (1u128 << 32) - 1 + r.below(3) as u128, 1 => (1u128 << 64) - 1 + r.below(3) as u128, 2 => r.num32() as u128, _ => r.num64() as u128 } };
        let mut t = match r.below(9) {
            0 => { let v = big(r); format!("{v}") }
            1 => { let v = big(r); format!("0x{v:x}") }
            2 => { let v = big(r); format!("0X{v:08X}") }
            3 => { let v = big(r); format!("#{v:b}") }
            4 => { let v = big(r); format!("0b{v:b}") }
            5 => { let p = *r.pick(&["#", "0b"]); let n = 1 + r.us(34); let mut s = p.to_string(); for _ in 0..n { s.push(*r.pick(&['0', '1', 'x', 'X'])); } s }
            6 => { let v = big(r); format!("000{v}") }
            _ => { let n = r.us(6); let mut s = String::new(); for _ in 0..n { s.push_str(*r.pick(&pieces)); } s }
        };
        if r.chance(1, 3) { t = format!("{}{}{}", r.pick(&[" ", "\n", "\t ", ""]), t, r.pick(&[" ", "\n  ", "\t", ""])); }
        let tr = t.trim().to_string();
        let xml = format!("<e>{}</e>", t);
        c.case("number", t.len() > 1, &format!("{t:?}"), || {
            let d = roxmltree::Document::parse(&xml).map_err(|e| e.to_string())?;
            let n = d.root_element();
            eq(&<u32 as Parse>::parse(&n, &()).ok().map(|v| v as u64), &ref_num(&tr, 32), "as 32-bit number")?;
            eq(&<u64 as Parse>::parse(&n, &()).ok(), &ref_num(&tr, 64), "as 64-bit number")
        });
    }
    for t in ["0", "1", "true", "false", " true ", "\n0 ", "", "2", "True", "TRUE", "FALSE", "yes", "no", "00", "01", "10", "t", "f", "truefalse", "0x1", "-1", " ", "on", "tru", "alse"] {
        let xml = format!("<e>{}</e>", t);
        c.case("boolean", true, &format!("{t:?}"), || {
            let d = roxmltree::Document::parse(&xml).map_err(|e| e.to_string())?;
            let want = match t.trim() { "0" | "false" => Some(false), "1" | "true" => Some(true), _ => None };
            eq(&<svd_parser::types::BoolParse as Parse>::parse(&d.root_element(), &()).ok(), &want, "as boolean")
        });
    }
}

pub fn c02(c: &mut Ctx) {
    for _ in 0..c.n(60000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let num = |r: &mut Rng| -> String { match r.below(8) { 0 => r.pick(&["", "x", "-1", "4294967296", "0x", "1 2", "99999999999", "é"]).to_string(), 1 => format!("0x{:x}", r.num32()), 2 => r.num32().to_string(), 3 => format!("#{:b}", r.num32()), 4 => (u32::MAX - r.below(2) as u32).to_string(), _ => r.below(70).to_string() } };
        let brt = |r: &mut Rng| -> String { match r.below(7) { 0 => r.pick(&["", "[", "]", "[]", "[:]", "[3]", "3:0", "[3:0", "3:0]", "[a:b]", "[3:]", "[:0]", "[-1:0]", "[4294967296:0]", "[4294967295:0]", "[4294967295:4294967295]", "[é:0]"]).to_string(), 1 => format!("[{}:{}]", r.num32(), r.num32()), 2 => format!("[{}:{}]", u32::MAX, r.below(3)), _ => { let a = r.below(64); let b = r.below(64); format!("[{a}:{b}]") } } };
        let (a, b, o, l, m) = (brt(r), r.below(4), num(r), num(r), num(r));
        let w = num(r);
        let mut kids = vec![];
        let has = (b == 0 || r.chance(1, 4), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
        let (hl, hm, ho, hw) = match b { 1 => (true, true, has.3, has.4), 2 => (has.1, false, true, true), _ => (has.1, has.2, has.3, has.4) };
        if has.0 { kids.push(leaf("bitRange", a.clone())); }
        if hl { kids.push(leaf("lsb", l.clone())); }
        if hm { kids.push(leaf("msb", m.clone())); }
        if ho { kids.push(leaf("bitOffset", o.clone())); }
        if hw { kids.push(leaf("bitWidth", w.clone())); }
        r.shuffle(&mut kids);
        let mut s = String::new();
        write(&node("field", kids), &mut s, &mut None, 0);
        let span = |m: u64, l: u64| -> Option<(u32, u32)> { if m < l { return None; } let w = m - l + 1; if w > u32::MAX as u64 { None } else { Some((l as u32, w as u32)) } };
        let want: Option<(u32, u32, BitRangeType)> = if has.0 {
            (|| {
                let i = a.strip_prefix('[')?.strip_suffix(']')?;
                let mut p = i.split(':');
                let x: u32 = p.next()?.parse().ok()?;
                let y: u32 = p.next()?.parse().ok()?;
                let (o, w) = span(x as u64, y as u64)?;
                if p.next().is_some() { return None; }
                Some((o, w, BitRangeType::BitRange))
            })()
        } else if hl && hm {
            match (ref_num(m.trim(), 32), ref_num(l.trim(), 32)) { (Some(m), Some(l)) => span(m, l).map(|(o, w)| (o, w, BitRangeType::MsbLsb)), _ => None }
        } else if ho && hw {
            match (ref_num(o.trim(), 32), ref_num(w.trim(), 32)) { (Some(o), Some(w)) if o + w <= 1 << 32 => Some((o as u32, w as u32, BitRangeType::OffsetWidth)), _ => None }
        } else { None };
        c.case(if want.is_some() { "readable" } else { "error" }, true, &s.clone(), || {
            let d = roxmltree::Document::parse(&s).map_err(|e| e.to_string())?;
            let got = <BitRange as Parse>::parse(&d.root_element(), &Config::default()).ok().map(|b| (b.offset, b.width, b.range_type));
            eq(&got, &want, "position")
        });
    }
    // through the whole parser: the field keeps that position
    for _ in 0..c.n(300) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let mut f = field_base("F", range_ok(r));
        f.bit_range.width = f.bit_range.width.min(u32::MAX - f.bit_range.offset);
        let s = minimal(vec![field_x(&Field::Single(f.clone()), &mut Style { r: Some(r) })]);
        c.case("document", true, &s.clone(), || {
            let d = perr(svd_parser::parse(&s))?;
            let g = d.peripherals[0].registers().next().unwrap().fields().next().unwrap().bit_range;
            eq(&g, &f.bit_range, "position")
        });
    }
}
pub fn minimal(fields: Vec<X>) -> String {
    let reg = node("register", vec![leaf("name", "R"), leaf("addressOffset", "0"), node("fields", fields)]);
    let per = node("peripheral", vec![leaf("name", "P"), leaf("baseAddress", "0"), node("registers", vec![reg])]);
    doc(&node("device", vec![leaf("name", "D"), node("peripherals", vec![per])]), None)
}

fn diff_dev(got: &Device, want: &Device) -> Result<(), String> {
    if got == want { return Ok(()); }
    let (a, b) = (format!("{got:?}"), format!("{want:?}"));
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| { let mut st = i.saturating_sub(120); while !s.is_char_boundary(st) { st -= 1; } let mut e = (i + 120).min(s.len()); while !s.is_char_boundary(e) { e += 1; } s[st..e.max(st)].to_string() };
    Err(format!("parsed device differs: observed ...{}..., the property requires ...{}...", cut(&a), cut(&b)))
}

pub fn c25(c: &mut Ctx) {
    let lvls = LVLS;
    // 1. every stated property arrives where it belongs
    for _ in 0..c.n(1500) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 3);
        let l = if r.coin() { ValidateLevel::Weak } else { ValidateLevel::Disabled };
        let mut x = device_x(&d, &mut Style { r: Some(r) });
        reorder(&mut x, r);
        let s = doc(&x, Some(r));
        c.case("document", true, &format!("{l:?} {s}"), || {
            let g = perr(svd_parser::parse_with_config(&s, &Config::default().validate_level(l)))?;
            diff_dev(&g, &d)
        });
    }
    // every element parser asks for its own element
    for _ in 0..c.n(150) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 2);
        let s = doc(&device_x(&d, &mut Style { r: None }), None);
        c.case("wrong-element", true, &s, || {
            let t = roxmltree::Document::parse(&s).map_err(|e| e.to_string())?;
            let k = Config::default().validate_level(ValidateLevel::Disabled);
            for e in t.descendants().filter(|n| n.is_element()) {
                let tag = e.tag_name().name();
                macro_rules! only { ($($t:ty => $w:expr),*) => { $( if tag != $w { ensure(<$t as Parse>::parse(&e, &k).is_err(), || format!("<{tag}> read as <{}>", $w))?; } )* } }
                only!(Device => "device", Peripheral => "peripheral", Cluster => "cluster", Register => "register", Field => "field", EnumeratedValues => "enumeratedValues", EnumeratedValue => "enumeratedValue", Interrupt => "interrupt", Cpu => "cpu");
            }
            Ok(())
        });
    }
    // ... even when that element has everything the wanted one needs
    let kinds = ["peripheral", "cluster", "register", "field", "enumeratedValues", "enumeratedValue", "interrupt", "cpu"];
    for _ in 0..c.n(150) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 2);
        let s = doc(&device_x(&d, &mut Style { r: None }), None);
        let at = *r.pick(&kinds);
        let other = if r.coin() { format!("{at}s") } else { kinds[r.us(kinds.len())].to_string() };
        if other == at { continue; }
        let mut s2 = s.replace(&format!("<{at}>"), &format!("<{other} was=\"{at}\">")).replace(&format!("<{at} "), &format!("<{other} was=\"{at}\" ")).replace(&format!("</{at}>"), &format!("</{other}>"));
        if s2 == s { continue; }
        if s2.starts_with('\u{feff}') { s2.remove(0); }
        c.case("renamed-element", true, &s2, || {
            let t = roxmltree::Document::parse(&s2).map_err(|e| e.to_string())?;
            let k = Config::default().validate_level(ValidateLevel::Disabled);
            for e in t.descendants().filter(|n| n.attribute("was") == Some(at)) {
                macro_rules! only { ($($t:ty => $w:expr),*) => { $( if at == $w { ensure(<$t as Parse>::parse(&e, &k).is_err(), || format!("<{other}> read as <{at}>"))?; } )* } }
                only!(PeripheralInfo => "peripheral", FieldInfo => "field", Peripheral => "peripheral", Cluster => "cluster", Register => "register", Field => "field", EnumeratedValues => "enumeratedValues", EnumeratedValue => "enumeratedValue", Interrupt => "interrupt", Cpu => "cpu");
            }
            Ok(())
        });
    }
    // 2. a missing mandatory property / unreadable value is an error
    let mandatory: &[(&str, &[&str])] = &[
        ("device", &["name", "peripherals"]), ("peripheral", &["name", "baseAddress"]), ("register", &["name", "addressOffset"]),
        ("cluster", &["name", "addressOffset"]), ("field", &["name", "bitRange", "lsb", "msb", "bitOffset", "bitWidth"]),
        ("interrupt", &["name", "value"]), ("addressBlock", &["offset", "size", "usage"]), ("enumeratedValue", &["name"]),
        ("cpu", &["name", "revision", "endian", "mpuPresent", "fpuPresent", "nvicPrioBits", "vendorSystickConfig"]),
        ("range", &["minimum", "maximum"]), ("writeConstraint", &["writeAsRead", "useEnumeratedValues", "range"]),
    ];
    let checked_text: &[&str] = &["access", "usage", "endian", "protection", "dataType", "modifiedWriteValues", "readAction", "mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent", "dtcmPresent", "vtorPresent", "vendorSystickConfig", "writeAsRead", "useEnumeratedValues", "bitRange",
        "dim", "dimIncrement", "baseAddress", "addressOffset", "offset", "size", "value", "resetValue", "resetMask", "bitOffset", "bitWidth", "lsb", "msb", "minimum", "maximum", "nvicPrioBits", "deviceNumInterrupts", "sauNumRegions", "addressUnitBits", "width"];
    fn paths(x: &X, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, String, String)>) {
        for (i, k) in x.kids.iter().enumerate() { at.push(i); out.push((at.clone(), x.tag.clone(), k.tag.clone())); paths(k, at, out); at.pop(); }
    }
    fn at<'a>(x: &'a mut X, p: &[usize]) -> &'a mut X { let mut x = x; for i in p { x = &mut x.kids[*i]; } x }
    for _ in 0..c.n(2500) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 2);
        let mut x = device_x(&d, &mut Style { r: Some(r) });
        let mut ps = vec![];
        paths(&x, &mut vec![], &mut ps);
        let kind = r.below(6);
        let what;
        if kind < 2 {
            let cand: Vec<_> = ps.iter().filter(|(_, p, k)| mandatory.iter().any(|(a, b)| a == p && b.contains(&k.as_str()))).collect();
            let (p, par, k) = (*r.pick(&cand)).clone();
            // uniform over tags
            let tags: Vec<(String, String)> = { let mut t: Vec<_> = cand.iter().map(|c| (c.1.clone(), c.2.clone())).collect(); t.sort(); t.dedup(); t };
            let t = r.pick(&tags).clone();
            let (p, par, k) = cand.iter().find(|c| (c.1.clone(), c.2.clone()) == t).map(|c| (c.0.clone(), c.1.clone(), c.2.clone())).unwrap_or((p, par, k));
            let (last, up) = p.split_last().unwrap();
            if r.coin() || k == "peripherals" || k == "range" { at(&mut x, up).kids.remove(*last); what = format!("<{k}> removed from <{par}>"); }
            else { at(&mut x, &p).text = None; what = format!("<{k}> in <{par}> emptied"); }
        } else if kind < 4 {
            let tags: Vec<(String, String)> = { let mut t: Vec<_> = ps.iter().filter(|c| checked_text.contains(&c.2.as_str())).map(|c| (c.1.clone(), c.2.clone())).collect(); t.sort(); t.dedup(); t };
            let t = r.pick(&tags).clone();
            let cand: Vec<_> = ps.iter().filter(|c| c.1 == t.0 && c.2 == t.1).collect();
            let p = (*r.pick(&cand)).clone();
            let bad = r.pick(&["zzz", "0xZZ", "-5", "[7:", "tru", "99999999999999999999999"]).to_string();
            at(&mut x, &p.0).text = Some(bad.clone());
            what = format!("<{}> in <{}> = {bad}", p.2, p.1);
        } else if kind == 4 {
            // unexpected elements
            let opts = [("peripherals", "perpheral"), ("registers", "registr"), ("fields", "fild"), ("enumeratedValues", "enumValue"), ("writeConstraint", "other"), ("dimArrayIndex", "foo"), ("writeConstraint", "writeAsRead")];
            let avail: Vec<_> = opts.iter().filter(|(p, _)| ps.iter().any(|c| c.2 == *p)).collect();
            let (p, k) = **r.pick(&avail);
            let cand: Vec<_> = ps.iter().filter(|c| c.2 == p).collect();
            let path = (*r.pick(&cand)).0.clone();
            let n = at(&mut x, &path);
            n.kids.push(leaf(k, "1"));
            what = format!("unexpected <{k}> in <{p}>");
        } else {
            // placeholder / index count
            let cand: Vec<_> = ps.iter().filter(|c| c.2 == "dimIncrement").collect();
            if cand.is_empty() { continue; }
            let (_, up) = { let p = &(*r.pick(&cand)).0; let (l, u) = p.split_last().unwrap(); (*l, u.to_vec()) };
            let n = at(&mut x, &up);
            if r.coin() {
                for k in &mut n.kids { if k.tag == "name" { k.text = Some("PLAIN".into()); } }
                what = "array without %s".to_string();
            } else {
                let dim: u64 = n.kids.iter().find(|k| k.tag == "dim").and_then(|k| num(k.text.as_ref().unwrap())).unwrap();
                n.kids.retain(|k| k.tag != "dimIndex");
                let wrong = if r.coin() || dim < 2 { dim + 1 } else { dim - 1 };
                n.kids.push(leaf("dimIndex", (0..wrong).map(|i| format!("i{i}")).collect::<Vec<_>>().join(",")));
                what = format!("{wrong} indexes for dim {dim}");
            }
        }
        let s = doc(&x, None);
        let l = *r.pick(&lvls);
        c.case("defect", true, &format!("{what} at {l:?}: {s}"), || {
            match svd_parser::parse_with_config(&s, &Config::default().validate_level(l)) {
                Err(_) => Ok(()),
                Ok(_) => Err(format!("{what}: accepted, the property requires an error")),
            }
        });
    }
    // 3. nothing crashes: arbitrary mutations of documents
    for _ in 0..c.n(3000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 2);
        let mut x = device_x(&d, &mut Style { r: Some(r) });
        for _ in 0..1 + r.us(3) {
            let mut ps = vec![];
            paths(&x, &mut vec![], &mut ps);
            if ps.is_empty() { break; }
            let p = r.pick(&ps).0.clone();
            let (last, up) = p.split_last().unwrap();
            match r.below(6) {
                0 => { at(&mut x, up).kids.remove(*last); }
                1 => { at(&mut x, &p).text = None; at(&mut x, &p).kids.clear(); }
                2 => { at(&mut x, &p).text = Some(r.pick(&["", "[", "[]", "[3:9]", "[4294967295:0]", "4294967295", "-", "0-", "z-a", "é", "%s", "0x", "#", "9-3", "A-é"]).to_string()); at(&mut x, &p).kids.clear(); }
                3 => { let n = at(&mut x, &p).clone(); at(&mut x, up).kids.push(n); }
                4 => { let t = r.pick(&["name", "dim", "dimIncrement", "field", "writeConstraint", "bitRange", "value", "registers", "cluster"]).to_string(); at(&mut x, &p).tag = t; }
                _ => { let t = r.pick(&["dimIncrement", "writeConstraint", "bitRange", "name"]).to_string(); at(&mut x, &p).kids.push(leaf(&t, "1")); }
            }
        }
        let s = doc(&x, None);
        let l = *r.pick(&lvls);
        c.case("mutant", true, &format!("{l:?} {s}"), || { let _ = svd_parser::parse_with_config(&s, &Config::default().validate_level(l)); Ok(()) });
    }
    // defaults
    for l in lvls {
        let s = minimal(vec![]);
        c.case("defaults", true, &format!("{l:?}"), || {
            let r = svd_parser::parse_with_config(&s, &Config::default().validate_level(l));
            if l == ValidateLevel::Strict { return ensure(r.is_err(), || "version, description, addressUnitBits and width are mandatory at strict level".into()); }
            let d = perr(r)?;
            eq(&(d.version.as_str(), d.description.as_str(), d.address_unit_bits, d.width, d.schema_version.as_str(), d.no_namespace_schema_location.as_str(), d.xmlns_xs.as_str()), &("1.0", "", 8, 32, "1.1", "CMSIS-SVD_Schema_1_1.xsd", "http://www.w3.org/2001/XMLSchema-instance"), "defaults")
        });
    }
}

pub fn c26(c: &mut Ctx) {
    for _ in 0..c.n(300) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 1);
        let s = doc(&device_x(&d, &mut Style { r: None }), None);
        c.case("bom", true, &s, || {
            let a = perr(svd_parser::parse(&s))?;
            let b = perr(svd_parser::parse(&format!("\u{feff}{s}")))?;
            eq(&a, &d, "document without mark")?;
            eq(&b, &d, "document with mark")?;
            eq(&svd_parser::parse(&format!("\u{feff}\u{feff}{s}")).ok(), &svd_parser::parse(&format!("\u{feff}{s}")).ok(), "one mark trimmed")?;
            ensure(svd_parser::parse(&format!("x{s}")).is_err() && svd_parser::parse(&format!("\u{fefe}{s}")).is_err() && svd_parser::parse(&format!("\u{ff0b}{s}")).is_err(), || "text before the document accepted".into())
        });
    }
    let mut texts: Vec<String> = vec!["".into(), "\u{feff}".into(), "\u{feff}x".into(), "\u{fefe}".into(), "é".into(), "\u{ef}".into(), "\u{ef}\u{bb}\u{bf}".into(), "ab".into(), "abc".into(), "日".into(), "日本".into(), "\u{10ffff}".into(), "\u{fec0}".into(), "a\u{feff}".into(), "<\u{feff}".into(), "<a/>".into(), "<a>".into(), "<d/>".into()];
    for cp in (0..0x11000u32).step_by(7) { if let Some(ch) = char::from_u32(cp) { texts.push(ch.to_string()); texts.push(format!("{ch}<")); } }
    for t in texts {
        c.case("text", true, &format!("{t:?}"), || {
            let a = svd_parser::parse(&t).map_err(|e| format!("{e:#}"));
            if let Some(rest) = t.strip_prefix('\u{feff}') {
                let b = svd_parser::parse(rest).map_err(|e| format!("{e:#}"));
                eq(&a, &b, "parse with the mark")?;
            }
            ensure(a.is_err(), || "not a device, but accepted".into())
        });
    }
}

pub fn c28(c: &mut Ctx) {
    fn strip(d: &mut Device) {
        fn rcs(v: &mut Vec<RegisterCluster>) { for x in v { match x { RegisterCluster::Register(r) => { if let Some(fs) = r.fields.as_mut() { for f in fs { f.enumerated_values = vec![]; f.write_constraint = None; } } } RegisterCluster::Cluster(c) => rcs(&mut c.children) } } }
        for p in &mut d.peripherals { if let Some(r) = p.registers.as_mut() { rcs(r); } }
    }
    for _ in 0..c.n(1500) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let d = device(r, 3);
        let x = device_x(&d, &mut Style { r: Some(r) });
        // content inside field enums / constraints made unreadable
        fn spoil(x: &mut X, infield: bool, r: &mut Rng) { for k in &mut x.kids { if infield && (k.tag == "enumeratedValues" || k.tag == "writeConstraint") && r.coin() { k.kids = vec![leaf("bogus", "?")]; } else { spoil(k, k.tag == "field", r); } } }
        let s = doc(&x, None);
        let mut y = x.clone();
        spoil(&mut y, false, r);
        let s2 = doc(&y, None);
        let (e, p) = (r.coin(), r.coin());
        c.case("document", true, &s.clone(), || {
            let base = Config::default().expand_properties(p);
            let _ = e;
            let full = perr(svd_parser::parse_with_config(&s, &base))?;
            let mut want = full.clone();
            strip(&mut want);
            let got = perr(svd_parser::parse_with_config(&s, &base.ignore_enums(true)))?;
            diff_dev(&got, &want)?;
            let got = perr(svd_parser::parse_with_config(&s2, &base.ignore_enums(true)))?;
            diff_dev(&got, &want)?;
            if !p { diff_dev(&full, &d)?; }
            Ok(())
        });
    }
}
