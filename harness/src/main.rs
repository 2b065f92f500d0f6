#![allow(clippy::all)]
mod ctx;
mod gen;
mod ints;
mod xml;
mod tree;
mod bld;
mod expd;
mod docs;
mod enc;
use ctx::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let mut tier = "quick".to_string();
    let mut seed = 1u64;
    let mut out = None;
    let mut current = None;
    let mut secs = 60u64;
    let mut trace = false;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--tier" => tier = a[i + 1].clone(),
            "--seed" => seed = a[i + 1].parse().unwrap(),
            "--out" => out = Some(a[i + 1].clone()),
            "--current" => current = Some(std::path::PathBuf::from(&a[i + 1])),
            "--trace" => trace = true,
            "--secs" => secs = a[i + 1].parse().unwrap(),
            _ => {}
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx {
        rng: Rng(seed.wrapping_mul(0x1234567) ^ prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))),
        seed,
        thorough: tier == "thorough",
        evals: 0,
        distinct: Default::default(),
        samples: vec![],
        failures: vec![],
        current: if trace || prop == "C17" || prop == "C16" { current } else { None },
        kinds: Default::default(),
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs),
    };
    match prop.as_str() {
        "C01" => ints::c01(&mut c),
        "C02" => docs::c02(&mut c),
        "C03" => ints::c03(&mut c),
        "C04" => ints::c04(&mut c),
        "C05" => ints::c05(&mut c),
        "C06" => ints::c06(&mut c),
        "C07" => ints::c07(&mut c),
        "C08" => tree::c08(&mut c),
        "C09" => ints::c09(&mut c),
        "C10" => docs::c10(&mut c),
        "C11" => enc::c11(&mut c),
        "C12" => ints::c12(&mut c),
        "C13" => bld::c13(&mut c),
        "C14" => bld::c14(&mut c),
        "C15" => tree::c15(&mut c),
        "C16" => expd::c16(&mut c),
        "C17" => expd::c17(&mut c),
        "C18" => tree::c18(&mut c),
        "C19" => bld::c19(&mut c),
        "C20" => bld::c20(&mut c),
        "C21" => tree::c21(&mut c),
        "C22" => enc::c22(&mut c),
        "C23" => expd::c23(&mut c),
        "C24" => enc::c24(&mut c),
        "C25" => docs::c25(&mut c),
        "C26" => docs::c26(&mut c),
        "C27" => enc::c27(&mut c),
        "C28" => docs::c28(&mut c),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3);
        }
    }
    let mut s = String::new();
    s.push_str(&format!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},", js(&prop), c.evals, c.distinct.len()));
    s.push_str(&format!("\"kinds\":{{{}}},", c.kinds.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"samples\":[{}],", c.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"failures\":[{}]}}", c.failures.iter().map(|f| format!("{{\"case\":{},\"detail\":{}}}", js(&f.case), js(&f.detail))).collect::<Vec<_>>().join(",")));
    match out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => println!("{s}"),
    }
    std::process::exit(if c.failures.is_empty() { 0 } else { 1 });
}
