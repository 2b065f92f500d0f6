use crate::ctx::*;
use crate::gen::{self, *};
use svd_parser::svd;
use svd::*;

pub fn c01(c: &mut Ctx) {
    for _ in 0..c.n(20000) {
        if c.stop() { break; }
        let off = c.rng.num32();
        let room = (1u64 << 32) - off as u64; // offset + width <= 2^32
        let width = match c.rng.below(3) { 0 => room.min(u32::MAX as u64) as u32, 1 => 1, _ => (1 + c.rng.num32() as u64 % room).min(u32::MAX as u64) as u32 };
        let msb64 = off as u64 + width as u64 - 1;
                let msb = msb64 as u32;
        let key = format!("offset={off} width={width}");
        c.case("range", true, &key, || {
            let a = BitRange::from_offset_width(off, width);
            eq(&(a.offset, a.width, a.range_type), &(off, width, BitRangeType::OffsetWidth), "from_offset_width")?;
            let b = if width == u32::MAX || msb - off < u32::MAX { Some(BitRange::from_msb_lsb(msb, off)) } else { None };
            if let Some(b) = b { eq(&(b.offset, b.width, b.range_type), &(off, width, BitRangeType::MsbLsb), "from_msb_lsb")?; }
            eq(&a.lsb(), &off, "lsb")?;
            eq(&a.msb(), &msb, "msb")?;
            eq(&a.bit_range(), &format!("[{msb}:{off}]"), "bit_range()")?;
            let t = format!("[{msb}:{off}]");
            let r = BitRange::from_bit_range(&t).ok_or_else(|| format!("{t} not read"))?;
            eq(&(r.offset, r.width, r.range_type), &(off, width, BitRangeType::BitRange), &format!("from_bit_range({t})"))
        });
    }
    // texts
    let pieces = ["[", "]", ":", "0", "3", "7", "31", "4294967295", "4294967296", "-1", " ", "x", "", "é", "::", "[3", "0x1", "+5"];
    for _ in 0..c.n(40000) {
        if c.stop() { break; }
        let mut t = String::new();
        if c.rng.chance(3, 4) {
            t.push('[');
            let (a, b) = (c.rng.num32(), c.rng.num32());
            match c.rng.below(5) {
                0 => t.push_str(&format!("{a}:{b}")),
                1 => t.push_str(&format!("{}:{}", a % 64, b % 64)),
                _ => for _ in 0..c.rng.us(5) { t.push_str(*c.rng.pick(&pieces)); }
            }
            if c.rng.chance(9, 10) { t.push(']'); }
        } else {
            for _ in 0..c.rng.us(6) { t.push_str(*c.rng.pick(&pieces)); }
        }
        if c.rng.chance(1, 3) {
            // one or two characters changed
            for _ in 0..1 + c.rng.us(2) {
                let mut v: Vec<char> = t.chars().collect();
                let i = match c.rng.below(4) { 0 => 0, 1 => v.len(), 2 => v.len().saturating_sub(1), _ => c.rng.us(v.len() + 1) };
                let x = *c.rng.pick(&['[', ']', ':', ' ', '\n', '\t', '(', '{', '}', ')', '0', '1', '-', '+', '_', 'x', 'é', ',', ';', '.', '\0', '7']);
                match c.rng.below(3) { 0 => v.insert(i, x), 1 if i < v.len() => v[i] = x, _ if i < v.len() => { v.remove(i); } _ => v.push(x) }
                t = v.into_iter().collect();
            }
        }
        let key = format!("{t:?}");
        c.case("text", t.len() > 2, &key, || {
            let got = BitRange::from_bit_range(&t);
            // reference reading: `[` msb `:` lsb `]`, u32 each, msb >= lsb, width representable
            let want = (|| {
                let inner = t.strip_prefix('[')?.strip_suffix(']')?;
                let mut it = inner.split(':');
                let m: u32 = it.next()?.parse().ok()?;
                let l: u32 = it.next()?.parse().ok()?;
                if it.next().is_some() { return None; }
                let w = (m as u64).checked_sub(l as u64)? + 1;
                if w > u32::MAX as u64 { return None; }
                Some((l, w as u32))
            })();
            eq(&got.map(|g| (g.offset, g.width)), &want, "from_bit_range")
        });
    }
}

fn fits(v: u64, width: u32) -> bool { width >= 64 || v < (1u64 << width) }

fn ident_ok(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && (b[0] == b'_' || b[0].is_ascii_alphabetic()) && b.iter().all(|c| *c == b'_' || c.is_ascii_alphanumeric())
}
fn chars_ok(s: &str) -> bool { s.bytes().all(|c| c == b'_' || c.is_ascii_alphanumeric()) }
pub fn plain_ok(s: &str) -> bool { chars_ok(s) }
pub fn dimable_ok(s: &str) -> bool {
    if s == "%s" || ident_ok(s) { return true; }
    if let Some(r) = s.strip_suffix("[%s]") { if ident_ok(r) { return true; } }
    if let Some(r) = s.strip_prefix("%s") { return ident_ok(r); }
    if let Some(p) = s.find("%s") { return ident_ok(&s[..p]) && chars_ok(&s[p + 2..]); }
    false
}
pub fn derived_ok(s: &str) -> bool { s.split('.').all(dimable_ok) }

pub fn spec_field(f: &FieldInfo, l: ValidateLevel) -> bool {
    if l == ValidateLevel::Disabled { return true; }
    let strict = l == ValidateLevel::Strict;
    let w = f.bit_range.width;
    if w == 0 { return false; }
    if w < 64 {
        for e in &f.enumerated_values { for v in &e.values { if let Some(x) = v.value { if !fits(x, w) { return false; } } } }
        if let Some(WriteConstraint::Range(r)) = f.write_constraint {
            if r.min > r.max || !fits(r.min, w) || !fits(r.max, w) { return false; }
        }
    }
    if strict {
        if !dimable_ok(&f.name) { return false; }
        if let Some(d) = &f.derived_from { if !derived_ok(d) { return false; } }
        let u = |e: &EnumeratedValues| if e.derived_from.is_some() { None } else { Some(e.usage.unwrap_or(Usage::ReadWrite)) };
        match f.enumerated_values.len() {
            0 | 1 => {}
            2 => {
                let (a, b) = (u(&f.enumerated_values[0]), u(&f.enumerated_values[1]));
                let rd = |x: Option<Usage>| x.is_none() || x == Some(Usage::Read);
                let wr = |x: Option<Usage>| x.is_none() || x == Some(Usage::Write);
                if !((rd(a) && wr(b)) || (rd(b) && wr(a))) { return false; }
            }
            _ => return false,
        }
    }
    true
}

pub fn c03(c: &mut Ctx) {
    for _ in 0..c.n(40000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let mut f = any_field_info(r);
        let w = match r.below(5) { 0 => 0, 1 => 60 + r.below(8) as u32, 2 => r.num32(), _ => r.below(70) as u32 };
        f.bit_range.width = w;
        // values around the border of the width
        let border = |r: &mut Rng| -> u64 {
            let b = if w >= 64 { u64::MAX } else { 1u64 << w };
            match r.below(5) { 0 => b, 1 => b.wrapping_sub(1), 2 => 0, 3 => b.wrapping_add(1), _ => r.num64() }
        };
        for e in &mut f.enumerated_values { for v in &mut e.values { if v.value.is_some() { v.value = Some(if r.chance(1, 3) { border(r) } else { 0 }); } } }
        if let Some(WriteConstraint::Range(g)) = &mut f.write_constraint { g.min = if r.coin() { 0 } else { border(r) }; g.max = border(r); }
        if r.chance(1, 6) { f.name = r.pick(&["1a", "a-b", "", "a b", "A[%s]", "%s"]).to_string(); }
        if r.chance(1, 10) { f.derived_from = Some(r.pick(&["A.B", "A..B", "9", "A.%sB"]).to_string()); }
        if r.chance(1, 3) {
            f.enumerated_values = (0..r.us(4)).map(|_| { let mut e = gen::evs(r, 0); e.usage = r.opt(usage); e.derived_from = if r.chance(1, 3) { Some("X".into()) } else { None }; e }).collect();
        }
        let l = lvl(r);
        let want = spec_field(&f, l);
        c.case(if want { "accept" } else { "reject" }, true, &format!("{l:?} {f:?}"), || {
            let before = f.clone();
            let got = f.validate(l);
            ensure(got.is_ok() == want, || format!("validate gave {got:?}, the property requires {}", if want { "acceptance" } else { "rejection" }))?;
            eq(&f, &before, "field after validation")?;
            let mut b = FieldInfo::builder().name(f.name.clone()).bit_range(f.bit_range).enumerated_values(f.enumerated_values.clone());
            b = b.write_constraint(f.write_constraint).derived_from(f.derived_from.clone());
            let got = b.build(l);
            ensure(got.is_ok() == want, || format!("build gave {got:?}, the property requires {}", if want { "acceptance" } else { "rejection" }))
        });
    }
}

pub fn c04(c: &mut Ctx) {
    use svd::registerproperties::Error as E;
    for _ in 0..c.n(60000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let mut p = any_props(r);
        if p.size.is_some() && r.chance(2, 3) { p.size = Some(r.below(70) as u32); }
        if let (Some(s), true) = (p.size, r.chance(2, 3)) {
            let b = if s < 64 { 1u64 << s } else { u64::MAX };
            if p.reset_value.is_some() { p.reset_value = Some(match r.below(4) { 0 => b, 1 => b.wrapping_sub(1), 2 => 0, _ => r.next() & b.wrapping_sub(1) }); }
            if p.reset_mask.is_some() { p.reset_mask = Some(match r.below(4) { 0 => b, 1 => b.wrapping_sub(1), 2 => u64::MAX, _ => r.next() & b.wrapping_sub(1) }); }
        }
        let l = lvl(r);
        let mut errs: Vec<E> = vec![];
        if l != ValidateLevel::Disabled {
            if let (Some(s), Some(v)) = (p.size, p.reset_value) { if !fits(v, s) { errs.push(E::ValueTooLarge(v, s)); } }
            if l == ValidateLevel::Strict {
                if let (Some(s), Some(m)) = (p.size, p.reset_mask) { if !fits(m, s) { errs.push(E::MaskTooLarge(m, s)); } }
                if let (Some(v), Some(m)) = (p.reset_value, p.reset_mask) { if v & !m != 0 { errs.push(E::MaskConflict(v, m)); } }
            }
        }
        c.case(if errs.is_empty() { "accept" } else { "reject" }, true, &format!("{l:?} {p:?}"), || {
            let chk = |got: Result<(), SvdError>, what: &str| match got {
                Ok(()) => ensure(errs.is_empty(), || format!("{what} accepted, the property requires one of {errs:?}")),
                Err(SvdError::RegisterProperties(e)) => ensure(errs.contains(&e), || format!("{what} gave {e:?}, the property requires one of {errs:?}")),
                Err(e) => Err(format!("{what} gave {e:?}")),
            };
            chk(p.validate(l), "validate")?;
            chk(p.build(l).map(|_| ()), "build")?;
            if let Ok(b) = p.build(l) { eq(&b, &p, "build")?; }
            let mut q = RegisterProperties::default();
            chk(q.modify_from(p, l), "modify_from")
        });
    }
}

pub fn c05(c: &mut Ctx) {
    for _ in 0..c.n(30000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let mut e = any_ev(r);
        if r.chance(1, 4) { e.name = r.pick(&["", "a b", "9", "_", "a%s", "é"]).to_string(); }
        let l = lvl(r);
        let strict = l == ValidateLevel::Strict;
        let d = e.is_default == Some(true);
        let want = l == ValidateLevel::Disabled || ((e.value.is_some() || d) && !(strict && (d && e.value.is_some() || !plain_ok(&e.name))));
        c.case("value", true, &format!("{l:?} {e:?}"), || {
            let g = e.validate(l);
            ensure(g.is_ok() == want, || format!("validate {g:?}, required ok={want}"))?;
            eq(&e.is_default(), &d, "is_default()")?;
            let g = EnumeratedValue::builder().name(e.name.clone()).value(e.value).is_default(e.is_default).build(l);
            ensure(g.is_ok() == want, || format!("build {g:?}, required ok={want}"))
        });
        let r = &mut c.rng;
        let mut s = any_evs(r);
        if r.chance(1, 5) { s.name = Some(r.pick(&["", "a b", "9", "%s"]).to_string()); }
        if r.chance(1, 5) { s.derived_from = Some(r.pick(&["", "A.B", "A B", "9"]).to_string()); }
        let l = lvl(r);
        let strict = l == ValidateLevel::Strict;
        let want = l == ValidateLevel::Disabled
            || ((s.derived_from.is_some() || !s.values.is_empty())
                && !(strict && (s.name.as_ref().map_or(false, |n| !plain_ok(n)) || s.derived_from.as_ref().map_or(false, |n| !derived_ok(n)))));
        let probe = match s.values.first() { Some(v) if r.coin() => v.name.clone(), _ => ident(r) };
        c.case("set", true, &format!("{l:?} {s:?} lookup {probe:?}"), || {
            let g = s.validate(l);
            ensure(g.is_ok() == want, || format!("validate {g:?}, required ok={want}"))?;
            let u = if s.derived_from.is_some() { None } else { Some(s.usage.unwrap_or(Usage::ReadWrite)) };
            eq(&s.usage(), &u, "usage()")?;
            eq(&s.default_value().map(|v| v as *const _), &s.values.iter().find(|v| v.is_default == Some(true)).map(|v| v as *const _), "default_value()")?;
            let w = s.values.iter().position(|v| v.name == probe);
            eq(&s.get_value(&probe).map(|v| v as *const _), &w.map(|i| &s.values[i] as *const _), "get_value()")?;
            let mut s2 = s.clone();
            let p0 = w.map(|i| &s2.values[i] as *const EnumeratedValue);
            eq(&s2.get_mut_value(&probe).map(|v| v as *const _), &p0, "get_mut_value()")
        });
        let r = &mut c.rng;
        let mut f = any_field_info(r);
        f.enumerated_values = (0..1 + r.us(2)).map(|_| any_evs(r)).collect();
        let q = usage(r);
        c.case("by-usage", true, &format!("{q:?} {f:?}"), || {
            let u = |s: &EnumeratedValues| if s.derived_from.is_some() { None } else { Some(s.usage.unwrap_or(Usage::ReadWrite)) };
            let w = f.enumerated_values.iter().position(|s| u(s) == Some(q));
            eq(&f.get_enumerated_values(q).map(|v| v as *const _), &w.map(|i| &f.enumerated_values[i] as *const _), "get_enumerated_values()")?;
            let mut g = f.clone();
            let p0 = w.map(|i| &g.enumerated_values[i] as *const EnumeratedValues);
            eq(&g.get_mut_enumerated_values(q).map(|v| v as *const _), &p0, "get_mut_enumerated_values()")
        });
    }
}

pub fn c06(c: &mut Ctx) {
    let alpha: Vec<&str> = vec!["a", "Z", "_", "0", "9", "%s", "%", "s", "[", "]", "[%s]", ".", "-", " ", "é", "\n", "A1"];
    let mut words: Vec<String> = vec![String::new()];
    // names found by tools/patterns.py: a JSON list of strings
    if let Ok(l) = std::env::var("SVDH_NAMES") { words.extend(json_strings(&l)); }
    // all words up to 3 pieces (17^3), then random longer ones
    let mut layer = vec![String::new()];
    for _ in 0..(if c.thorough { 4 } else { 3 }) {
        let mut nl = vec![];
        for w in &layer { for a in &alpha { nl.push(format!("{w}{a}")); } }
        words.extend(nl.iter().cloned());
        layer = nl;
    }
    for _ in 0..c.n(10000) {
        let n = 1 + c.rng.us(7);
        let mut s = String::new();
        for _ in 0..n { s.push_str(*c.rng.pick(&alpha)); }
        words.push(s);
    }
    for cp in 0..0x300u32 { if let Some(ch) = char::from_u32(cp) { words.push(format!("{ch}")); words.push(format!("a{ch}")); words.push(format!("a%s{ch}")); words.push(format!("%s{ch}")); } }
    let br = BitRange::from_offset_width(0, 1);
    for w in words {
        if c.stop() { break; }
        c.case("name", w.len() > 1, &format!("{w:?}"), || {
            for l in LVLS {
                let s = l == ValidateLevel::Strict;
                let chk = |r: Result<(), SvdError>, ok: bool, bad: &str, what: &str| -> Result<(), String> {
                    match r {
                        Ok(()) => ensure(ok, || format!("{what} name {bad:?} accepted at {l:?}")),
                        Err(SvdError::Name(NameError::Invalid(n, _))) => { ensure(!ok, || format!("{what} name {bad:?} rejected at {l:?}"))?; ensure(bad == n || bad.split('.').any(|p| p == n), || format!("{what}: error names {n:?}")) }
                        Err(e) => Err(format!("{what}: {e:?}")),
                    }
                };
                let (p, d, v) = (!s || plain_ok(&w), !s || dimable_ok(&w), !s || derived_ok(&w));
                let mut e = EnumeratedValue::builder().name("a".into()).value(Some(1)).build(L).unwrap();
                e.name = w.clone();
                chk(e.validate(l), p, &w, "enumeratedValue")?;
                let mut es = EnumeratedValues::builder().values(vec![e.clone()]).build(L).unwrap();
                es.name = Some(w.clone());
                chk(es.validate(l), p, &w, "enumeratedValues")?;
                es.name = None;
                es.derived_from = Some(w.clone());
                chk(es.validate(l), v, &w, "enumeratedValues derivedFrom")?;
                let mut f = field_base(&w, br);
                chk(f.validate(l), d, &w, "field")?;
                f.name = "A".into();
                f.derived_from = Some(w.clone());
                chk(f.validate(l), v, &w, "field derivedFrom")?;
                let mut x = reg_base(&w, 0);
                chk(x.validate(l), d, &w, "register")?;
                x.name = "A".into();
                x.alternate_group = Some(w.clone());
                chk(x.validate(l), p, &w, "alternateGroup")?;
                x.alternate_group = None;
                x.alternate_register = Some(w.clone());
                chk(x.validate(l), d, &w, "alternateRegister")?;
                x.alternate_register = None;
                x.derived_from = Some(w.clone());
                chk(x.validate(l), v, &w, "register derivedFrom")?;
                let mut k = cluster_base(&w, 0);
                k.children = vec![Register::Single(reg_base("R", 0)).into()];
                chk(k.validate(l), d, &w, "cluster")?;
                k.name = "A".into();
                k.derived_from = Some(w.clone());
                chk(k.validate(l), v, &w, "cluster derivedFrom")?;
                let mut q = per_base(&w, 0);
                chk(q.validate(l), d, &w, "peripheral")?;
                q.name = "A".into();
                q.derived_from = Some(w.clone());
                chk(q.validate(l), d, &w, "peripheral derivedFrom")?;
            }
            Ok(())
        });
    }
}

pub fn c07(c: &mut Ctx) {
    let bits = |o: u32, w: u32| -> u64 { let mut m = 0u64; for b in o..o + w { m |= 1u64 << b; } m };
    for o in 0..64u32 { for w in 1..=(64 - o) {
        let f = field_base("F", BitRange { offset: o, width: w, range_type: BitRangeType::MsbLsb });
        c.case("single", true, &format!("offset {o} width {w}"), || {
            eq(&f.bitmask(), &bits(o, w), "FieldInfo::bitmask")?;
            eq(&Field::Single(f.clone()).bitmask(), &bits(o, w), "Field::bitmask")
        });
    } }
    for _ in 0..c.n(20000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let n = r.us(6);
        let mut fs = vec![];
        let mut want_reg = 0u64;
        let mut descr = String::new();
        for _ in 0..n {
            let o = r.below(64) as u32;
            let w = 1 + r.below(64 - o as u64) as u32;
            let f = field_base("F", BitRange { offset: o, width: w, range_type: BitRangeType::OffsetWidth });
            if r.coin() {
                want_reg |= bits(o, w);
                descr.push_str(&format!("{o}+{w} "));
                fs.push((Field::Single(f), bits(o, w)));
            } else {
                let room = 64 - o - w;
                let dimn = r.below(9) as u32;
                let inc = if dimn <= 1 { r.below(64) as u32 } else { r.below((room / (dimn - 1)) as u64 + 1) as u32 };
                let mut m = 0;
                for i in 0..dimn { m |= bits(o + i * inc, w); }
                want_reg |= m;
                descr.push_str(&format!("{o}+{w}x{dimn}/{inc} "));
                fs.push((Field::Array(f, dim_base(dimn, inc)), m));
            }
        }
        let mut reg = reg_base("R", 0);
        reg.fields = if n == 0 && r.coin() { None } else { Some(fs.iter().map(|f| f.0.clone()).collect()) };
        c.case("fields", n > 0, &descr, || {
            for (f, m) in &fs { eq(&f.bitmask(), m, &format!("bitmask of {f:?}"))?; }
            eq(&reg.bitmask(), &want_reg, "RegisterInfo::bitmask")
        });
    }
}

pub fn canon(s: &str) -> Option<u32> {
    let v: u32 = s.parse().ok()?;
    if v.to_string() == s { Some(v) } else { None }
}

pub fn c09(c: &mut Ctx) {
    let pieces = ["0", "1", "9", "10", "007", "A", "B", "Z", "a", "c", "z", "-", "-", ",", ",", "x1", " ", "é", "4294967295", "4294967294", "4294967296", "+3"];
    for _ in 0..c.n(60000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let t = match r.below(6) {
            0 => { let a = r.below(40); format!("{}-{}", a, a + r.below(40)) }
            1 => { let a = u32::MAX - r.below(5) as u32; format!("{}-{}", a, u32::MAX) }
            2 => format!("{}-{}", (b'A' + r.below(26) as u8) as char, (b'A' + r.below(26) as u8 + if r.chance(1, 5) { 32 } else { 0 }) as char),
            3 => format!("{}-{}", (b'a' + r.below(26) as u8) as char, (b'a' + r.below(26) as u8) as char),
            4 => { let n = 1 + r.us(4); (0..n).map(|_| r.pick(&pieces).to_string()).collect::<Vec<_>>().join(",") }
            _ => { let n = r.us(5); let mut s = String::new(); for _ in 0..n { s.push_str(*r.pick(&pieces)); } s }
        };
        // keep to lists that fit in memory
        if let Some((a, b)) = t.split_once('-') {
            if let (Ok(a), Ok(b)) = (a.parse::<u32>(), b.parse::<u32>()) { if b >= a && b - a > 1000 { continue; } }
        }
        let want: Option<Vec<String>> = match t.split_once('-') {
            None => Some(t.split(',').map(|s| s.to_string()).collect()),
            Some((a, b)) => match (a.parse::<u32>(), b.parse::<u32>()) {
                (Ok(a), Ok(b)) => if a <= b { Some((a as u64..=b as u64).map(|i| i.to_string()).collect()) } else { None },
                _ => {
                    let one = |s: &str| if s.len() == 1 { s.bytes().next() } else { None };
                    match (one(a), one(b)) {
                        (Some(x), Some(y)) if (x.is_ascii_lowercase() && y.is_ascii_lowercase()) || (x.is_ascii_uppercase() && y.is_ascii_uppercase()) =>
                            if x <= y { Some((x..=y).map(|b| (b as char).to_string()).collect()) } else { None },
                        _ => None,
                    }
                }
            },
        };
        c.case("text", t.len() > 1, &format!("{t:?}"), || eq(&DimElement::parse_indexes(&t), &want, "parse_indexes"));
    }
    // lists: indexes_as_range and what the encoder prints
    for _ in 0..c.n(30000) {
        if c.stop() { break; }
        let r = &mut c.rng;
        let n = 1 + r.us(5);
        let mut v: Vec<String> = match r.below(4) {
            0 => { let a = r.num32().min(u32::MAX - 8) as u64; (0..n as u64).map(|i| (a + i).to_string()).collect() }
            1 => { let a = u32::MAX as u64 + 1 - n as u64; (0..n as u64).map(|i| (a + i).to_string()).collect() }
            _ => gen::index_list(r, n),
        };
        if r.chance(1, 4) { let i = r.us(n); v[i] = r.pick(&["0", "01", "4294967295", "4294967296", "x", "+1", "5"]).to_string(); }
        if r.chance(1, 6) { r.shuffle(&mut v); }
        let mut d = dim_base(n as u32, 4);
        d.dim_index = if r.chance(1, 12) { None } else { Some(v.clone()) };
        let eff: Vec<String> = d.dim_index.clone().unwrap_or_else(|| (0..n).map(|i| i.to_string()).collect());
        let want = (|| {
            let a = canon(&eff[0])?;
            for (i, s) in eff.iter().enumerate() { if canon(s)? as u64 != a as u64 + i as u64 { return None; } }
            Some((a, a + (eff.len() as u32 - 1)))
        })();
        c.case("list", true, &format!("{:?}", d.dim_index), || {
            let g = d.indexes_as_range();
            eq(&g.map(|g| (*g.start(), *g.end())), &want, "indexes_as_range")?;
            eq(&d.indexes().map(|s| s.to_string()).collect::<Vec<_>>(), &eff, "indexes")?;
            if let Some(v) = &d.dim_index {
                use svd_encoder::Encode;
                let x = d.encode().map_err(|e| format!("{e:?}"))?;
                let t = x.get_child("dimIndex").and_then(|e| e.get_text()).ok_or("no dimIndex written")?.to_string();
                let plain = v.iter().all(|s| !s.contains('-') && !s.contains(','));
                if plain { eq(&DimElement::parse_indexes(&t), &Some(v.clone()), &format!("reading back {t:?}"))?; }
            }
            Ok(())
        });
    }
}

pub fn c12(c: &mut Ctx) {
    macro_rules! vocab { ($c:expr, $T:ty, [$(($v:expr, $k:expr)),* $(,)?]) => {{
        let tab: Vec<($T, &str)> = vec![$(($v, $k)),*];
        let name = stringify!($T);
        for (v, k) in tab.iter() {
            $c.case("keyword", true, &format!("{name} {k}"), || {
                eq(&v.as_str(), k, "as_str")?;
                eq(&<$T>::parse_str(k), &Some(*v), "parse_str")
            });
        }
        let keys: Vec<&str> = tab.iter().map(|t| t.1).collect();
        let mut other: Vec<String> = vec!["".into(), " ".into(), "unknown".into()];
        for k in ALL_KEYS.iter() {
            other.push(k.to_string()); other.push(k.to_uppercase()); other.push(format!("{k} ")); other.push(format!(" {k}")); other.push(format!("{k}x")); other.push(k.replace('-', "_")); other.push(k.replace('-', "")); other.push(k.to_lowercase());
            for i in 0..k.len() { other.push(k[..i].to_string()); other.push(k[i..].to_string()); let mut s = k.to_string(); s.remove(i); other.push(s); }
            let mut ch = k.chars(); if let Some(f) = ch.next() { other.push(format!("{}{}", f.to_ascii_uppercase(), ch.as_str())); }
        }
        for _ in 0..200 { let k = *$c.rng.pick(&ALL_KEYS); let mut b: Vec<char> = k.chars().collect(); let i = $c.rng.us(b.len()); b[i] = (b'a' + $c.rng.below(26) as u8) as char; other.push(b.into_iter().collect()); }
        for t in other {
            let want = tab.iter().find(|x| x.1 == t).map(|x| x.0);
            let _ = &keys;
            $c.case("text", t.len() > 1, &format!("{name} {t:?}"), || eq(&<$T>::parse_str(&t), &want, "parse_str"));
        }
    }} }
    const ALL_KEYS: [&str; 49] = ["read-only", "read-write", "read-writeOnce", "write-only", "writeOnce", "read", "write", "little", "big", "selectable", "other", "s", "n", "p", "clear", "set", "modify", "modifyExternal", "oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *", "uint16_t *", "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *", "registers", "buffer", "reserved", "writeonce", "read-once", "register", "true", "false", "mixed"];
    vocab!(c, Access, [(Access::ReadOnly, "read-only"), (Access::ReadWrite, "read-write"), (Access::ReadWriteOnce, "read-writeOnce"), (Access::WriteOnly, "write-only"), (Access::WriteOnce, "writeOnce")]);
    vocab!(c, Usage, [(Usage::Read, "read"), (Usage::Write, "write"), (Usage::ReadWrite, "read-write")]);
    vocab!(c, Endian, [(Endian::Little, "little"), (Endian::Big, "big"), (Endian::Selectable, "selectable"), (Endian::Other, "other")]);
    vocab!(c, Protection, [(Protection::Secure, "s"), (Protection::NonSecure, "n"), (Protection::Privileged, "p")]);
    vocab!(c, ReadAction, [(ReadAction::Clear, "clear"), (ReadAction::Set, "set"), (ReadAction::Modify, "modify"), (ReadAction::ModifyExternal, "modifyExternal")]);
    vocab!(c, ModifiedWriteValues, [(ModifiedWriteValues::OneToClear, "oneToClear"), (ModifiedWriteValues::OneToSet, "oneToSet"), (ModifiedWriteValues::OneToToggle, "oneToToggle"), (ModifiedWriteValues::ZeroToClear, "zeroToClear"), (ModifiedWriteValues::ZeroToSet, "zeroToSet"), (ModifiedWriteValues::ZeroToToggle, "zeroToToggle"), (ModifiedWriteValues::Clear, "clear"), (ModifiedWriteValues::Set, "set"), (ModifiedWriteValues::Modify, "modify")]);
    vocab!(c, DataType, [(DataType::U8, "uint8_t"), (DataType::U16, "uint16_t"), (DataType::U32, "uint32_t"), (DataType::U64, "uint64_t"), (DataType::I8, "int8_t"), (DataType::I16, "int16_t"), (DataType::I32, "int32_t"), (DataType::I64, "int64_t"), (DataType::U8Ptr, "uint8_t *"), (DataType::U16Ptr, "uint16_t *"), (DataType::U32Ptr, "uint32_t *"), (DataType::U64Ptr, "uint64_t *"), (DataType::I8Ptr, "int8_t *"), (DataType::I16Ptr, "int16_t *"), (DataType::I32Ptr, "int32_t *"), (DataType::I64Ptr, "int64_t *")]);
    vocab!(c, AddressBlockUsage, [(AddressBlockUsage::Registers, "registers"), (AddressBlockUsage::Buffer, "buffer"), (AddressBlockUsage::Reserved, "reserved")]);
    for a in [Access::ReadOnly, Access::ReadWrite, Access::ReadWriteOnce, Access::WriteOnly, Access::WriteOnce] {
        c.case("rights", true, &format!("{a:?}"), || {
            eq(&a.can_read(), &matches!(a, Access::ReadOnly | Access::ReadWrite | Access::ReadWriteOnce), "can_read")?;
            eq(&a.can_write(), &!matches!(a, Access::ReadOnly), "can_write")
        });
    }
    // the encoder writes, and the parser reads, the same keywords
    use svd_encoder::Encode;
    macro_rules! xmlvoc { ($T:ty, $tag:expr, $vs:expr, $cfg:expr) => {
        for v in $vs { c.case("xml-keyword", true, &format!("{} {v:?}", $tag), || {
            let e = v.encode().map_err(|e| format!("{e:?}"))?;
            eq(&e.name.as_str(), &$tag, "tag")?;
            let t = e.get_text().map(|t| t.to_string()).unwrap_or_default();
            eq(&t.as_str(), &v.as_str(), "written keyword")?;
            let doc = format!("<{}> {} </{}>", $tag, t, $tag);
            let d = roxmltree::Document::parse(&doc).unwrap();
            let g = <$T as svd_parser::Parse>::parse(&d.root_element(), $cfg).map_err(|e| e.to_string())?;
            eq(&g, &v, "read back")?;
            let doc = format!("<{}>{}Q</{}>", $tag, t, $tag);
            let d = roxmltree::Document::parse(&doc).unwrap();
            ensure(<$T as svd_parser::Parse>::parse(&d.root_element(), $cfg).is_err(), || format!("{doc} accepted"))
        }); }
    } }
    let cfg = svd_parser::Config::default();
    xmlvoc!(Access, "access", [Access::ReadOnly, Access::ReadWrite, Access::ReadWriteOnce, Access::WriteOnly, Access::WriteOnce], &cfg);
    xmlvoc!(Usage, "usage", [Usage::Read, Usage::Write, Usage::ReadWrite], &cfg);
    xmlvoc!(Endian, "endian", [Endian::Little, Endian::Big, Endian::Selectable, Endian::Other], &cfg);
    xmlvoc!(Protection, "protection", [Protection::Secure, Protection::NonSecure, Protection::Privileged], &cfg);
    xmlvoc!(ReadAction, "readAction", RA, &cfg);
    xmlvoc!(ModifiedWriteValues, "modifiedWriteValues", MWV, &cfg);
    xmlvoc!(DataType, "dataType", DT, &cfg);
    xmlvoc!(AddressBlockUsage, "usage", [AddressBlockUsage::Registers, AddressBlockUsage::Buffer, AddressBlockUsage::Reserved], &cfg);
}

/// the strings of a JSON list of strings
fn json_strings(l: &str) -> Vec<String> {
    let c: Vec<char> = l.chars().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < c.len() {
        if c[i] == '"' {
            let mut u: Vec<u16> = vec![];
            i += 1;
            while c[i] != '"' {
                let mut b = [0u16; 2];
                if c[i] == '\\' {
                    i += 1;
                    match c[i] {
                        'n' => u.push(10), 't' => u.push(9), 'r' => u.push(13), 'b' => u.push(8), 'f' => u.push(12),
                        'u' => { u.push(u16::from_str_radix(&c[i + 1..i + 5].iter().collect::<String>(), 16).unwrap()); i += 4; }
                        x => u.extend_from_slice(x.encode_utf16(&mut b)),
                    }
                } else { u.extend_from_slice(c[i].encode_utf16(&mut b)); }
                i += 1;
            }
            out.push(String::from_utf16_lossy(&u));
        }
        i += 1;
    }
    out
}
