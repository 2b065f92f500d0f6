//! vx: mechanical extraction of functions and types from /repo into one Verus file.
//!
//! usage: vx REPO UNIT.rs OUT.rs OUT.json [--canary]
//!
//! A unit is Verus text (specifications, lemmas, shims) plus `//@` directives that name the real
//! items to copy.  Nothing executable that a property is about is written in a unit: every body
//! comes from /repo's current source, after the meaning-preserving rewrites of passes.rs.
mod emit;
mod passes;

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub type Res<T> = Result<T, String>;

#[derive(Default, Clone, Debug)]
pub struct FnDir {
    pub file: String,
    pub path: String,
    pub ret: Option<String>,
    pub rename: Option<String>,
    pub as_trait: bool,
    pub trusted: bool,
    pub keep: bool,
    pub nofmt: bool,
    pub exec_only: bool,
    pub contract: String,
    pub loops: BTreeMap<usize, LoopDir>,
    pub closures: BTreeMap<usize, String>,
    pub places: BTreeMap<String, String>,
    pub subst: Vec<(String, String)>,
    pub sigsubst: Vec<(String, String)>,
    pub opts: Vec<String>,
    pub attrs: String,
}
#[derive(Default, Clone, Debug)]
pub struct LoopDir {
    pub desugar: bool,
    pub itermut: bool,
    pub iter: Option<String>,
    pub inv: String,
}

pub struct Unit {
    pub raw: BTreeMap<String, String>, // module -> text
    pub head: String,
    pub crates: Vec<(String, Vec<String>)>,
    pub items: Vec<(String, String, String)>,
    pub fns: Vec<FnDir>,
}

fn read_unit(path: &Path, u: &mut Unit, seen: &mut Vec<PathBuf>, assumed: bool) -> Res<()> {
    let canon = path.canonicalize().map_err(|e| format!("{}: {e}", path.display()))?;
    if seen.contains(&canon) {
        return Ok(());
    }
    seen.push(canon);
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut module = String::from("spec");
    let mut cur: Option<FnDir> = None;
    let mut place = String::new();
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        let err = |m: &str| format!("{}:{}: {m}", path.display(), ln + 1);
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (kw, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            if let Some(f) = cur.as_mut() {
                match kw {
                    "loop" => {
                        let w: Vec<&str> = rest.split_whitespace().collect();
                        let n: usize = w[0].parse().map_err(|_| err("loop number"))?;
                        let l = f.loops.entry(n).or_default();
                        let mut k = 1;
                        while k < w.len() {
                            match w[k] {
                                "desugar" => l.desugar = true,
                                "itermut" => {
                                    l.desugar = true;
                                    l.itermut = true
                                }
                                "iter" => {
                                    k += 1;
                                    l.iter = Some(w[k].to_string());
                                }
                                x => return Err(err(&format!("loop option {x}"))),
                            }
                            k += 1;
                        }
                        place = format!("loop {n}");
                    }
                    "closure" => place = format!("closure {rest}"),
                    "start" | "end" | "impltext" | "loopstart" | "loopend" | "closurestart" | "preloop" | "beforeloop" | "afterloop" | "find" | "found" | "result" => {
                        place = format!("{kw} {rest}").trim().to_string();
                    }
                    "before" | "after" => place = format!("{kw} {rest}"),
                    "keep" => f.keep = true,
                    "nofmt" => f.nofmt = true,
                    "trusted" => f.trusted = true,
                    "opt" => f.opts.push(rest.to_string()),
                    "attr" => f.attrs.push_str(&format!("{rest}\n")),
                    "subst" => {
                        let (a, b) = rest.split_once("=>>").ok_or_else(|| err("subst"))?;
                        f.subst.push((a.trim().to_string(), b.trim().to_string()));
                    }
                    "sigsubst" => {
                        let (a, b) = rest.split_once("=>>").ok_or_else(|| err("sigsubst"))?;
                        f.sigsubst.push((a.trim().to_string(), b.trim().to_string()));
                    }
                    "endfn" => {
                        u.fns.push(cur.take().unwrap());
                    }
                    _ => return Err(err(&format!("directive {kw} inside fn"))),
                }
                continue;
            }
            match kw {
                "include" => {
                    // `include F trusted`: the contracts of F only, proved in F's own unit
                    let (f, t) = match rest.strip_suffix(" trusted") {
                        Some(f) => (f, true),
                        None => (rest, assumed),
                    };
                    let p = path.parent().unwrap().join(f.trim());
                    read_unit(&p, u, seen, t)?;
                }
                "module" => module = rest.to_string(),
                "head" => {
                    u.head.push_str(rest);
                    u.head.push('\n');
                }
                "noext" => emit::NOEXT.with(|p| p.borrow_mut().push(rest.to_string())),
                "private" => emit::PRIVATE.with(|p| p.borrow_mut().push(rest.to_string())),
                "crate" => {
                    let (c, skip) = rest.split_once(" skip ").unwrap_or((rest, ""));
                    let skip = skip.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                    if !u.crates.iter().any(|x| x.0 == c.trim()) {
                        u.crates.push((c.trim().to_string(), skip));
                    }
                }
                "item" => {
                    let w: Vec<&str> = rest.splitn(3, ' ').collect();
                    if w.len() < 2 {
                        return Err(err("item FILE NAME [attrs]"));
                    }
                    u.items.push((w[0].into(), w[1].into(), w.get(2).unwrap_or(&"").to_string()));
                }
                "fn" => {
                    let mut f = FnDir::default();
                    f.trusted = assumed;
                    let (lhs, ret) = match rest.rsplit_once(" -> ") {
                        Some((l, r)) => (l, Some(r.trim().to_string())),
                        None => (rest, None),
                    };
                    f.ret = ret;
                    let (file, p) = lhs.split_once(' ').ok_or_else(|| err("fn FILE PATH"))?;
                    f.file = file.to_string();
                    let mut p = p.trim().to_string();
                    if let Some((a, b)) = p.clone().split_once(" rename ") {
                        p = a.trim().to_string();
                        f.rename = Some(b.trim().to_string());
                    }
                    if let Some(a) = p.clone().strip_suffix(" as-trait") {
                        p = a.trim().to_string();
                        f.as_trait = true;
                    }
                    f.path = p;
                    place = "contract".into();
                    cur = Some(f);
                }
                "" => {}
                _ => return Err(err(&format!("directive {kw}"))),
            }
            continue;
        }
        if let Some(f) = cur.as_mut() {
            let dst: &mut String = if place == "contract" {
                &mut f.contract
            } else if let Some(n) = place.strip_prefix("loop ") {
                &mut f.loops.get_mut(&n.parse::<usize>().unwrap()).unwrap().inv
            } else if let Some(n) = place.strip_prefix("closure ") {
                f.closures.entry(n.trim().parse::<usize>().map_err(|_| err("closure number"))?).or_default()
            } else {
                f.places.entry(place.clone()).or_default()
            };
            dst.push_str(line);
            dst.push('\n');
        } else {
            let r = u.raw.entry(module.clone()).or_default();
            r.push_str(line);
            r.push('\n');
        }
    }
    if cur.is_some() {
        return Err(format!("{}: unterminated fn", path.display()));
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let canary = a.iter().any(|x| x == "--canary");
    let mut u = Unit { raw: BTreeMap::new(), head: String::new(), crates: vec![], items: vec![], fns: vec![] };
    let mut seen = vec![];
    let r = read_unit(Path::new(&a[2]), &mut u, &mut seen, false).and_then(|_| emit::emit(Path::new(&a[1]), &u, canary));
    match r {
        Ok((text, info)) => {
            std::fs::write(&a[3], text).unwrap();
            std::fs::write(&a[4], info).unwrap();
        }
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}
