//! Meaning-preserving rewrites from the Rust in /repo to the Rust that Verus reads.
//! Each one is listed in DESIGN.md ("what the extraction changes").
use crate::{FnDir, Res};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rw<'a> {
    pub dir: &'a FnDir,
    pub krate: String,
    pub errs: Vec<String>,
    pub this: bool, // rename self -> this
    pub result: bool, // the function returns a Result
}

const ITERISH: &[&str] = &[
    "iter", "iter_mut", "into_iter", "chars", "split", "split_terminator", "filter", "children", "indexes", "enumerate", "zip", "rev",
    "skip", "descendants", "attributes", "lines", "bytes", "drain", "keys", "values", "filter_map", "flat_map",
    "registers", "clusters", "fields", "peripherals", "take_while", "char_indices",
];

const STR_METHODS: &[&str] = &[
    "split", "ends_with", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "replace", "to_lowercase", "trim", "bytes",
    "split_terminator", "trim_start_matches", "trim_end_matches", "trim_start", "trim_end",
];

fn iterish(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ITERISH.contains(&n.as_str()) || (n == "map" && iterish(&m.receiver))
        }
        Expr::Paren(p) => iterish(&p.expr),
        Expr::Range(_) => true,
        _ => false,
    }
}

// methods whose result is an Option / a Result, whatever they are called on here
const OPTIONISH: &[&str] = &[
    "checked_add", "checked_sub", "checked_mul", "checked_shl", "get", "first", "last", "next", "attribute", "text", "ok", "find",
    "get_child", "as_deref", "cloned", "copied", "strip_prefix", "strip_suffix", "split_once", "pop", "as_ref", "get_mut",
];
const RESULTISH: &[&str] = &[
    "parse", "get_child_text", "get_child_text_opt", "get_child_u32", "get_child_u64", "get_child_bool", "get_child_elem", "get_text",
    "ok_or", "ok_or_else", "map_err", "build", "encode", "encode_with_config",
];
fn kind_of(e: &Expr) -> Option<bool> {
    match e {
        Expr::Paren(p) => kind_of(&p.expr),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let n = n.trim_start_matches("vx_");
            if OPTIONISH.contains(&n) {
                Some(false)
            } else if RESULTISH.contains(&n) {
                Some(true)
            } else if ["map", "and_then", "filter", "or_else", "or"].contains(&n) {
                kind_of(&m.receiver)
            } else {
                None
            }
        }
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if n == "optional" || RESULTISH.contains(&n.as_str()) {
                    Some(true)
                } else if n == "Some" {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        },
        _ => None,
    }
}

struct HasJump(bool);
impl<'a> syn::visit::Visit<'a> for HasJump {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Try(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
/// `break` or `continue` (anywhere: conservative)
fn loop_jumps(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
fn jumps(e: &Expr) -> bool {
    let mut h = HasJump(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

fn strip_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

fn is_str_pat(p: &Pat) -> bool {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Pat::Or(o) => o.cases.iter().any(is_str_pat),
        _ => false,
    }
}
fn has_slice_pat(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Or(o) => o.cases.iter().any(has_slice_pat),
        _ => false,
    }
}

impl<'a> Rw<'a> {
    fn opt(&self, o: &str) -> bool {
        self.dir.opts.iter().any(|x| x == o)
    }

    /// `map_or`, `map_or_else`, `then_some`
    fn combinator2(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let recv = &m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        if iterish(recv) || kind_of(recv) == Some(true) || args.iter().any(|a| jumps(a)) {
            return None;
        }
        let ts = match (m.method.to_string().as_str(), args.as_slice()) {
            ("map_or", [d, Expr::Closure(c)]) if c.inputs.len() == 1 && !jumps(&c.body) => {
                let (p, b) = (strip_pat(&c.inputs[0]), &c.body);
                quote!((match #recv { Some(#p) => #b, None => #d }))
            }
            ("map_or_else", [Expr::Closure(d), Expr::Closure(c)])
                if d.inputs.is_empty() && c.inputs.len() == 1 && !jumps(&c.body) && !jumps(&d.body) =>
            {
                let (p, b, d) = (strip_pat(&c.inputs[0]), &c.body, &d.body);
                quote!((match #recv { Some(#p) => #b, None => #d }))
            }
            ("then_some", [v]) => quote!((if #recv { Some(#v) } else { None })),
            _ => return None,
        };
        match parse2::<Expr>(ts) {
            Ok(e) => Some(e),
            Err(er) => {
                self.errs.push(format!("combinator {}: {er}", m.method));
                None
            }
        }
    }

    fn combinator(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        if self.dir.keep {
            return None;
        }
        if let Some(e) = self.combinator2(m) {
            return Some(e);
        }
        if m.args.len() != 1 {
            return None;
        }
        // a constructor as function value: the closure that applies it
        let mut ctor = None;
        if let Expr::Path(p) = &m.args[0] {
            let id = p.path.segments.last().unwrap().ident.to_string();
            if id.starts_with(|c: char| c.is_ascii_uppercase()) || (p.path.segments.len() > 1 && self.opt("result")) {
                let c: Expr = parse2(quote!(|vx_c| #p(vx_c))).ok()?;
                ctor = Some(c);
            }
        }
        let Expr::Closure(c) = ctor.as_ref().unwrap_or(&m.args[0]) else { return None };
        if jumps(&c.body) {
            return None;
        }
        let recv = &m.receiver;
        if iterish(recv) {
            return None;
        }
        let body = &c.body;
        let name = m.method.to_string();
        let pats: Vec<Pat> = c.inputs.iter().map(strip_pat).collect();
        let result = kind_of(&m.receiver).unwrap_or(self.opt("result"));
        let ts = match (name.as_str(), pats.len()) {
            ("ok_or_else", 0) => quote!((match #recv { Some(vx_v) => Ok(vx_v), None => Err(#body) })),
            ("or_else", 0) => quote!((match #recv { Some(vx_v) => Some(vx_v), None => #body })),
            ("unwrap_or_else", 0) => quote!((match #recv { Some(vx_v) => vx_v, None => #body })),
            ("and_then", 1) if !result => {
                let p = &pats[0];
                quote!((match #recv { Some(#p) => #body, None => None }))
            }
            ("map", 1) if !self.opt("map-iter") && !result => {
                let p = &pats[0];
                quote!((match #recv { Some(#p) => Some(#body), None => None }))
            }
            ("map", 1) if result => {
                let p = &pats[0];
                quote!((match #recv { Ok(#p) => Ok(#body), Err(vx_e) => Err(vx_e) }))
            }
            ("and_then", 1) if result => {
                let p = &pats[0];
                quote!((match #recv { Ok(#p) => #body, Err(vx_e) => Err(vx_e) }))
            }
            ("map_err", 1) => {
                let p = &pats[0];
                quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#body) }))
            }
            ("filter", 1) if !result => {
                let p = &pats[0];
                quote!((match #recv { Some(vx_v) => if { let #p = &vx_v; #body } { Some(vx_v) } else { None }, None => None }))
            }
            ("is_some_and", 1) => {
                let p = &pats[0];
                quote!((match #recv { Some(#p) => #body, None => false }))
            }
            ("is_none_or", 1) => {
                let p = &pats[0];
                quote!((match #recv { Some(#p) => #body, None => true }))
            }
            ("is_ok_and", 1) => {
                let p = &pats[0];
                quote!((match #recv { Ok(#p) => #body, Err(_) => false }))
            }
            ("then", 0) => quote!((if #recv { Some(#body) } else { None })),
            ("unwrap_or_else", 1) => {
                let p = &pats[0];
                quote!((match #recv { Ok(vx_v) => vx_v, Err(#p) => #body }))
            }
            _ => return None,
        };
        match parse2::<Expr>(ts) {
            Ok(e) => Some(e),
            Err(er) => {
                self.errs.push(format!("combinator {name}: {er}"));
                None
            }
        }
    }

    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| is_str_pat(&a.pat)) {
            return None;
        }
        let mut tail: Option<TokenStream> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            let guard = a.guard.as_ref().map(|(_, g)| g.clone());
            match &a.pat {
                Pat::Wild(_) if guard.is_none() => tail = Some(quote!({ #body })),
                Pat::Ident(i) if guard.is_none() && i.subpat.is_none() => {
                    let n = &i.ident;
                    tail = Some(quote!({ let #n = vx_m; #body }))
                }
                p if is_str_pat(p) => {
                    let mut lits = vec![];
                    collect_lits(p, &mut lits);
                    if lits.is_empty() {
                        self.errs.push("unsupported string pattern".into());
                    }
                    let mut cond = quote!();
                    for (i, l) in lits.iter().enumerate() {
                        if i > 0 {
                            cond = quote!(#cond || vx_m == #l);
                        } else {
                            cond = quote!(vx_m == #l);
                        }
                    }
                    if let Some(g) = guard {
                        cond = quote!((#cond) && (#g));
                    }
                    match &tail {
                        Some(t) => tail = Some(quote!({ if #cond { #body } else #t })),
                        None => {
                            self.errs.push("string match without default".into());
                            return None;
                        }
                    }
                }
                _ => {
                    self.errs.push("unsupported arm in string match".into());
                    return None;
                }
            }
        }
        let scrut = &m.expr;
        let t = tail?;
        parse2::<Expr>(quote!({ let vx_m = #scrut; #t })).ok()
    }

    fn slice_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| has_slice_pat(&a.pat)) {
            return None;
        }
        let mut tail: Option<TokenStream> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            let guard = a.guard.as_ref().map(|(_, g)| g.clone());
            match &a.pat {
                Pat::Wild(_) if guard.is_none() => tail = Some(quote!({ #body })),
                p => {
                    let cases: Vec<Pat> = match p {
                        Pat::Or(o) => o.cases.iter().cloned().collect(),
                        p => vec![p.clone()],
                    };
                    let mut conds = vec![];
                    let mut binds = vec![];
                    for c in &cases {
                        let Pat::Slice(s) = c else {
                            self.errs.push("mixed slice pattern".into());
                            return None;
                        };
                        let n = s.elems.len();
                        if s.elems.iter().any(|e| matches!(e, Pat::Rest(_))) {
                            if s.elems.len() == 1 {
                                conds.push(quote!(true));
                                continue;
                            }
                            self.errs.push("rest in slice pattern".into());
                            return None;
                        }
                        conds.push(quote!(vx_s.len() == #n));
                        for (i, e) in s.elems.iter().enumerate() {
                            match e {
                                Pat::Wild(_) => {}
                                Pat::Ident(id) if id.subpat.is_none() => {
                                    let n = &id.ident;
                                    binds.push(quote!(let #n = &vx_s[#i];));
                                    if cases.len() > 1 {
                                        self.errs.push("binding in or slice pattern".into());
                                    }
                                }
                                _ => {
                                    self.errs.push("unsupported slice element pattern".into());
                                    return None;
                                }
                            }
                        }
                    }
                    let mut cond = conds[0].clone();
                    for c in &conds[1..] {
                        cond = quote!(#cond || #c);
                    }
                    let t = match &tail {
                        Some(t) => t.clone(),
                        None => {
                            self.errs.push("slice match without default".into());
                            return None;
                        }
                    };
                    tail = Some(match guard {
                        Some(g) => quote!({ if (#cond) && { #(#binds)* (#g) } { #(#binds)* #body } else #t }),
                        None => quote!({ if #cond { #(#binds)* #body } else #t }),
                    });
                }
            }
        }
        let scrut = &m.expr;
        let t = tail?;
        parse2::<Expr>(quote!({ let vx_s = #scrut; #t })).ok()
    }

    fn args(&mut self, ts: TokenStream) -> Option<Vec<Expr>> {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        match syn::parse::Parser::parse2(p, ts) {
            Ok(v) => Some(v.into_iter().collect()),
            Err(_) => None,
        }
    }

    /// format!("..", args) -> a block that pushes the pieces to a String, one by one
    fn fmt(&mut self, mac: &Macro) -> Option<Expr> {
        let args = self.args(mac.tokens.clone())?;
        let mut it = args.into_iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = it.next() else {
            self.errs.push("format! without literal".into());
            return None;
        };
        let rest: Vec<Expr> = it.collect();
        let pushes = self.fmt_pieces(&s.value(), rest, &format_ident!("vx_f"))?;
        parse2::<Expr>(quote!({ let mut vx_f = String::new(); #(#pushes)* vx_f })).ok()
    }

    pub fn fmt_pieces(&mut self, s: &str, rest: Vec<Expr>, dst: &Ident) -> Option<Vec<TokenStream>> {
        let mut out = vec![];
        let mut lit = String::new();
        let mut next = 0usize;
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    if !lit.is_empty() {
                        out.push(quote!(crate::spec::vx_push_lit(&mut #dst, #lit);));
                        lit.clear();
                    }
                    let end = i + cs[i..].iter().position(|c| *c == '}')?;
                    let inner: String = cs[i + 1..end].iter().collect();
                    let (name, spec) = match inner.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (inner, String::new()),
                    };
                    let arg: Expr = if name.is_empty() {
                        let a = rest.get(next).cloned();
                        next += 1;
                        match a {
                            Some(a) => a,
                            None => {
                                self.errs.push("format! argument".into());
                                return None;
                            }
                        }
                    } else if let Ok(n) = name.parse::<usize>() {
                        rest.get(n).cloned()?
                    } else {
                        parse_str::<Expr>(&name).ok()?
                    };
                    let mut f = String::from("vx_push");
                    for c in spec.chars() {
                        match c {
                            '#' => f.push_str("_alt"),
                            '0'..='9' | 'a'..='z' | 'A'..='Z' => f.push_str(&format!("_{c}")),
                            '?' => f.push_str("_debug"),
                            _ => {
                                self.errs.push(format!("format spec {spec}"));
                                return None;
                            }
                        }
                    }
                    let f = format_ident!("{}", f);
                    out.push(quote!(crate::spec::#f(&mut #dst, &(#arg));));
                    i = end + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        if !lit.is_empty() {
            out.push(quote!(crate::spec::vx_push_lit(&mut #dst, #lit);));
        }
        Some(out)
    }

    fn mac(&mut self, mac: &Macro) -> Option<Expr> {
        let n = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match n.as_str() {
            "format" if !self.dir.nofmt => self.fmt(mac),
            "anyhow" => {
                let args = self.args(mac.tokens.clone())?;
                if let [Expr::Lit(ExprLit { lit: Lit::Str(s), .. })] = &args[..] {
                    let v = s.value();
                    if !v.contains('{') {
                        return parse2::<Expr>(quote!(crate::spec::vx_anyhow(#v))).ok();
                    }
                }
                parse2::<Expr>(quote!(crate::spec::vx_anyhow_any())).ok()
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => {
                parse2::<Expr>(quote!(crate::spec::vx_unreachable())).ok()
            }
            "eprintln" | "println" | "eprint" | "print" | "debug" | "trace" | "info" | "warn" => {
                parse2::<Expr>(quote!(())).ok()
            }
            "vec" if mac.tokens.is_empty() => parse2::<Expr>(quote!(Vec::new())).ok(),
            "vec" => {
                let args = self.args(mac.tokens.clone())?;
                parse2::<Expr>(quote!({ let mut vx_l = Vec::new(); #(vx_l.push(#args);)* vx_l })).ok()
            }
            "write" => {
                let args = self.args(mac.tokens.clone())?;
                let mut it = args.into_iter();
                let dst = it.next()?;
                let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = it.next() else { return None };
                let rest: Vec<Expr> = it.collect();
                let pushes = self.fmt_pieces(&s.value(), rest, &format_ident!("vx_w"))?;
                parse2::<Expr>(quote!({ let mut vx_w = String::new(); #(#pushes)* #dst.vx_write(vx_w) })).ok()
            }
            _ => None,
        }
    }
}

fn collect_lits(p: &Pat, out: &mut Vec<LitStr>) {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => out.push(s.clone()),
        Pat::Or(o) => {
            for c in &o.cases {
                collect_lits(c, out)
            }
        }
        _ => {}
    }
}

impl VisitMut for Rw<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_path(p, &self.krate);
        if self.this && p.is_ident("self") {
            let sp = p.segments[0].ident.span();
            p.segments[0].ident = Ident::new("this", sp);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // str methods whose pattern types Verus cannot name: the same method of a shim trait
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if (STR_METHODS.contains(&n.as_str()) && !self.opt("nostr")) || ((n == "min" || n == "max") && m.args.is_empty()) {
                m.method = format_ident!("vx_{}", n);
            }
        }
        // a lazy `map` in generic code: the same call, behind a function with a proved contract
        // a parameter `impl IntoIterator`: the conversion, with its contract
        if self.opt("vx-into") {
            if let Expr::MethodCall(m) = e {
                if m.method == "into_iter" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_)) {
                    let r = &m.receiver;
                    *e = parse2::<Expr>(quote!(crate::spec::vx_into_iter(#r))).unwrap();
                }
            }
            if let Expr::ForLoop(f) = e {
                if matches!(&*f.expr, Expr::Path(_) | Expr::Reference(_)) {
                    let r = &f.expr;
                    f.expr = Box::new(parse2::<Expr>(quote!(crate::spec::vx_into_iter(#r))).unwrap());
                }
            }
        }
        // `nodes.filter(p).map(f).collect()` into a `Result`: the loop it stands for
        if self.opt("vx-nodes") {
            if let Expr::MethodCall(m) = e {
                if m.method == "collect" && m.args.is_empty() && m.turbofish.as_ref().map_or(true, |t| quote!(#t).to_string().contains("Result")) {
                    if let Expr::MethodCall(n) = &*m.receiver {
                        if n.method == "map" && n.args.len() == 1 {
                            if let Expr::MethodCall(l) = &*n.receiver {
                                if l.method == "filter" && l.args.len() == 1 {
                                    let (r, p, f) = (&l.receiver, &l.args[0], &n.args[0]);
                                    *e = parse2::<Expr>(quote!(crate::spec::vx_nodes(#r, #p, #f))).unwrap();
                                }
                            }
                        }
                    }
                }
            }
        }
        // std adapters without a contract in vstd (or one too weak): functions with the contract
        for (o, name) in [("vx-filter", "filter"), ("vx-chain", "chain")] {
            if self.opt(o) {
                if let Expr::MethodCall(m) = e {
                    if m.method == name && m.args.len() == 1 {
                        let (r, a) = (&m.receiver, &m.args[0]);
                        let f = format_ident!("vx_{}", name);
                        *e = parse2::<Expr>(quote!(crate::spec::#f(#r, #a))).unwrap();
                    }
                }
            }
        }
        if self.opt("vx-join") {
            if let Expr::MethodCall(m) = e {
                if m.method == "join" {
                    m.method = format_ident!("vx_join");
                }
            }
        }
        if self.opt("vx-cloned") {
            if let Expr::MethodCall(m) = e {
                if m.method == "cloned" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse2::<Expr>(quote!(crate::spec::vx_cloned(#r))).unwrap();
                }
            }
        }
        // `i.map(f).collect()` into a `Result`: the loop it stands for
        if self.opt("vx-collect") {
            if let Expr::MethodCall(m) = e {
                if m.method == "collect" && m.args.is_empty() && m.turbofish.as_ref().map_or(true, |t| quote!(#t).to_string().contains("Result")) {
                    if let Expr::MethodCall(n) = &*m.receiver {
                        if n.method == "map" && n.args.len() == 1 {
                            let (r, f) = (&n.receiver, &n.args[0]);
                            *e = parse2::<Expr>(quote!(crate::spec::vx_collect(#r, #f))).unwrap();
                        }
                    }
                }
            }
        }
        if self.opt("vx-map") || self.opt("vx-map-all") {
            if let Expr::MethodCall(m) = e {
                if m.method == "map" && m.args.len() == 1 && (iterish(&m.receiver) || self.opt("vx-map-all")) {
                    let (r, mut a) = (&m.receiver, m.args[0].clone());
                    if let Expr::Path(p) = &a {
                        a = parse2::<Expr>(quote!(|vx_c| #p(vx_c))).unwrap();
                    }
                    *e = parse2::<Expr>(quote!(crate::spec::vx_map(#r, #a))).unwrap();
                }
            }
        }
        // `e.as_deref()` is the match it stands for
        if let Expr::MethodCall(m) = e {
            if m.method == "as_deref" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse2::<Expr>(quote!((match &(#r) { Some(vx_v) => Some(&**vx_v), None => None }))).unwrap();
            }
        }
        // a byte string is the array of its bytes
        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(l), .. }) = e {
            let b = l.value();
            *e = parse2::<Expr>(quote!(&[#(#b),*])).unwrap();
            return;
        }
        // slicing a String is slicing its text
        if let Expr::Index(ix) = e {
            if let (Expr::MethodCall(m), Expr::Range(_)) = (&*ix.expr, &*ix.index) {
                if m.method.to_string().trim_start_matches("vx_") == "to_lowercase" {
                    let b = &ix.expr;
                    *ix.expr = parse_quote!(#b.as_str());
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let t = squash(&toks(p));
                if let Some(n) = t.strip_prefix("str::") {
                    if STR_METHODS.contains(&n) && !c.args.is_empty() {
                        let m = format_ident!("vx_{}", n);
                        let a: Vec<&Expr> = c.args.iter().collect();
                        *e = parse2::<Expr>(quote!(crate::spec::StrShim::#m(#(#a),*))).unwrap();
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            if let Some(mut n) = self.mac(&m.mac) {
                visit_mut::visit_expr_mut(self, &mut n);
                *e = n;
                return;
            }
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n == "matches" {
                // matches!(e, p) -> match e { p => true, _ => false }
                struct M {
                    e: Expr,
                    p: Pat,
                    g: Option<Expr>,
                }
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        if i.peek(Token![,]) {
                            i.parse::<Token![,]>()?;
                        }
                        Ok(M { e, p, g })
                    }
                }
                if let Ok(M { e: s, p, g }) = parse2::<M>(m.mac.tokens.clone()) {
                    let g = g.map(|g| quote!(if #g));
                    if let Ok(mut n) = parse2::<Expr>(quote!((match #s { #p #g => true, _ => false }))) {
                        visit_mut::visit_expr_mut(self, &mut n);
                        *e = n;
                        return;
                    }
                }
                self.errs.push("matches!".into());
            }
            return;
        }
        if let Expr::Match(m) = e {
            let m = m.clone();
            if let Some(mut n) = self.str_match(&m) {
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            if let Some(mut n) = self.slice_match(&m) {
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        if let Some(mut n) = self.combinator(e) {
            self.visit_expr_mut(&mut n);
            *e = n;
            return;
        }
        // a loop over an array written out: one copy of the body per element
        if let Expr::ForLoop(f) = e {
            let (arr, by_ref) = match &*f.expr {
                Expr::Array(a) => (Some(a), false),
                Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                    Expr::Array(a) => (Some(a), true),
                    _ => (None, false),
                },
                _ => (None, false),
            };
            if let (Some(a), None, false) = (arr, &f.label, loop_jumps(&f.body)) {
                let (p, b) = (&f.pat, &f.body);
                let parts = a.elems.iter().map(|x| if by_ref { quote!({ let #p = &#x; #b }) } else { quote!({ let #p = #x; #b }) });
                let mut n = parse2::<Expr>(quote!({ #(#parts)* })).unwrap();
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        // `&x` in a loop pattern: x is a copy
        if let Expr::ForLoop(f) = e {
            let mut lets = vec![];
            deref_pat(&mut f.pat, &mut lets);
            for (k, l) in lets.into_iter().enumerate() {
                f.body.stmts.insert(k, l);
            }
        }
        if let Expr::Closure(c) = e {
            // `?` inside a closure returns from the closure
            let r = std::mem::replace(&mut self.result, false);
            visit_mut::visit_expr_closure_mut(self, c);
            self.result = r;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let (Expr::Try(t), true) = (&*e, self.result) {
            // the language definition of `?` on a Result
            let x = &t.expr;
            if let Ok(n) = parse2::<Expr>(
                quote!((match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(From::from(vx_e)) })),
            ) {
                *e = n;
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Macro(m) => {
                let me = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                let mut e = me.clone();
                self.visit_expr_mut(&mut e);
                *s = Stmt::Expr(e, m.semi_token);
                return;
            }
            Stmt::Item(Item::Const(c)) => {
                let (n, t, mut e) = (c.ident.clone(), c.ty.clone(), c.expr.clone());
                self.visit_expr_mut(&mut e);
                if let Ok(n) = parse2::<Block>(quote!({ let #n: #t = #e; })) {
                    *s = n.stmts.into_iter().next().unwrap();
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

pub fn map_path(p: &mut Path, krate: &str) {
    if p.leading_colon.is_some() || p.segments.len() < 2 {
        return;
    }
    let first = p.segments[0].ident.to_string();
    let second = p.segments[1].ident.to_string();
    let ins: Option<&str> = match (krate, first.as_str()) {
        ("svd-rs", "crate") => Some("svd"),
        ("svd-parser", "crate") if second != "svd" => Some("parser"),
        ("svd-encoder", "crate") if second != "svd" => Some("encoder"),
        _ => None,
    };
    if let Some(m) = ins {
        if second == "spec" {
            return; // inserted by vx itself
        }
        let id = format_ident!("{}", m);
        p.segments.insert(1, PathSegment { ident: id, arguments: PathArguments::None });
        return;
    }
    if first == "svd_rs" {
        p.segments[0].ident = format_ident!("svd");
        let id = format_ident!("crate");
        p.segments.insert(0, PathSegment { ident: id, arguments: PathArguments::None });
    }
}

/// Numbers loops and closures (pre-order) and leaves markers for the text emitter.
pub struct Mark<'a> {
    pub dir: &'a FnDir,
    pub loops: usize,
    pub closures: usize,
    pub finds: usize,
    pub canary: bool,
}
/// the parameter names of a closure header `[move] |a: A, b: B| ..`
fn closure_params(head: &str) -> Vec<String> {
    let Some(a) = head.find('|') else { return vec![] };
    let Some(l) = head[a + 1..].find('|') else { return vec![] };
    let (mut depth, mut out, mut cur) = (0i32, vec![], String::new());
    for c in head[a + 1..a + 1 + l].chars() {
        match c {
            '(' | '<' | '[' => depth += 1,
            ')' | '>' | ']' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    out.push(cur);
    out.iter().map(|p| p.split(':').next().unwrap().trim().to_string()).filter(|p| !p.is_empty()).collect()
}

/// replace `&x` inside a pattern by `vx_x` and bind `let x = *vx_x;`
fn deref_pat(p: &mut Pat, lets: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) => {
            if let Pat::Ident(i) = &*r.pat {
                let (x, v) = (i.ident.clone(), format_ident!("vx_{}", i.ident));
                lets.push(parse2::<Block>(quote!({ let #x = *#v; })).unwrap().stmts.remove(0));
                *p = parse_quote_pat(quote!(#v));
            }
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|p| deref_pat(p, lets)),
        Pat::Paren(t) => deref_pat(&mut t.pat, lets),
        _ => {}
    }
}
fn parse_quote_pat(ts: TokenStream) -> Pat {
    syn::parse::Parser::parse2(Pat::parse_single, ts).unwrap()
}

/// `opt assign-if`: a conditional assignment whose value has no effects and does not involve the
/// target becomes a call of a proved function, which spares the solver a case split each:
/// `if C { self.f = E; }`              -> `vx_assign_if(C, &mut self.f, E)`
/// `if let Some(x) = E { self.f = x; }` -> `vx_assign_some(&mut self.f, E)`
pub struct AssignIf;
impl AssignIf {
    fn place(e: &Expr) -> bool {
        match e {
            Expr::Field(f) => match &*f.base {
                Expr::Path(p) => p.path.is_ident("self"),
                b => AssignIf::place(b),
            },
            _ => false,
        }
    }
    /// a field of a local variable other than self, possibly with its empty text or list dropped
    fn value(e: &Expr) -> bool {
        match e {
            Expr::Field(f) => match &*f.base {
                Expr::Path(p) => p.path.get_ident().is_some_and(|i| i != "self"),
                _ => false,
            },
            Expr::MethodCall(m) => m.method == "empty_to_none" && m.args.is_empty() && AssignIf::value(&m.receiver),
            _ => false,
        }
    }
    fn rewrite(i: &ExprIf) -> Option<Expr> {
        if i.else_branch.is_some() {
            return None;
        }
        let [Stmt::Expr(Expr::Assign(a), Some(_))] = &i.then_branch.stmts[..] else { return None };
        if !AssignIf::place(&a.left) {
            return None;
        }
        let (place, right) = (&a.left, &a.right);
        match &*i.cond {
            Expr::Let(l) => {
                let Pat::TupleStruct(t) = &*l.pat else { return None };
                if !t.path.is_ident("Some") || t.elems.len() != 1 || !AssignIf::value(&l.expr) {
                    return None;
                }
                let (Pat::Ident(v), Expr::Path(p)) = (&t.elems[0], &**right) else { return None };
                if !p.path.is_ident(&v.ident) || v.by_ref.is_some() || v.subpat.is_some() {
                    return None;
                }
                let e = &l.expr;
                parse2(quote!(crate::spec::vx_assign_some(&mut #place, #e))).ok()
            }
            c => {
                // the condition: `x.f.is_some()`
                let Expr::MethodCall(m) = c else { return None };
                if m.method != "is_some" || !AssignIf::value(&m.receiver) || !AssignIf::value(right) {
                    return None;
                }
                parse2(quote!(crate::spec::vx_assign_if(#c, &mut #place, #right))).ok()
            }
        }
    }
}
impl VisitMut for AssignIf {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(Expr::If(i), _) = s {
            if let Some(e) = AssignIf::rewrite(i) {
                *s = Stmt::Expr(e, Some(Default::default()));
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

fn marker(s: &str) -> Stmt {
    let id = format_ident!("{}", s);
    parse2::<Block>(quote!({ #id!(); })).unwrap().stmts.remove(0)
}
impl Mark<'_> {
    fn body(&mut self, n: usize, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if self.dir.places.contains_key(&format!("loopstart {n}")) {
            b.stmts.insert(0, marker(&format!("vxmark_loopstart_{n}")));
        }
        if self.dir.places.contains_key(&format!("loopend {n}")) {
            b.stmts.push(marker(&format!("vxmark_loopend_{n}")));
        }
    }
}
impl VisitMut for Mark<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.body(n, &mut w.body);
                w.body.stmts.insert(0, marker(&format!("vxmark_inv_{n}")));
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                self.body(n, &mut w.body);
                w.body.stmts.insert(0, marker(&format!("vxmark_inv_{n}")));
            }
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_mut(self, &mut f.expr);
                self.body(n, &mut f.body);
                let ld = self.dir.loops.get(&n).cloned().unwrap_or_default();
                if ld.desugar {
                    let it = format_ident!("{}", ld.iter.clone().unwrap_or(format!("vx_it{n}")));
                    let (pat, ex, body) = (&f.pat, &f.expr, &f.body);
                    let stmts = &body.stmts;
                    let before = format_ident!("vxmark_beforeloop_{n}");
                    let after = format_ident!("vxmark_afterloop_{n}");
                    let inv = format_ident!("vxmark_inv_{n}");
                    let pre = format_ident!("vxmark_preloop_{n}");
                    let p = self.dir.places.contains_key(&format!("preloop {n}")).then(|| quote!(#pre!();));
                    let b = self.dir.places.contains_key(&format!("beforeloop {n}")).then(|| quote!(#before!();));
                    let a = self.dir.places.contains_key(&format!("afterloop {n}")).then(|| quote!(#after!();));
                    // `for x in e` over a `&mut` slice or Vec is a loop over e.iter_mut()
                    let done = matches!(&**ex, Expr::MethodCall(m) if m.method == "iter_mut");
                    let intoit = if !ld.itermut {
                        quote!((#ex).into_iter())
                    } else if done {
                        quote!(#ex)
                    } else {
                        quote!((#ex).iter_mut())
                    };
                    let q = quote!({
                        #p
                        let mut #it = #intoit;
                        #b
                        loop { #inv!(); match #it.next() { None => break, Some(#pat) => { #(#stmts)* } } }
                        #a
                    });
                    *e = parse2::<Expr>(q).unwrap();
                } else {
                    f.body.stmts.insert(0, marker(&format!("vxmark_inv_{n}")));
                    if ld.iter.is_some() {
                        let id = format_ident!("vxmark_it_{n}");
                        let ex = &f.expr;
                        let q = quote!(#id!(#ex));
                        *f.expr = parse2::<Expr>(q).unwrap();
                    }
                }
            }
            Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                visit_mut::visit_expr_mut(self, &mut c.body);
                if let Some(head) = self.dir.closures.get(&n) {
                    let id = format_ident!("vxmark_clo_{n}");
                    let b = &c.body;
                    // the header's parameters stand for the closure's own patterns
                    let names = closure_params(head);
                    let mut lets = vec![];
                    for (i, p) in c.inputs.iter().enumerate() {
                        let p = strip_pat(p);
                        if let Some(nm) = names.get(i) {
                            let v = format_ident!("{}", nm);
                            match &p {
                                // (a reference named like the header's parameter stays one)
                                Pat::Reference(r) => {
                                    let q = &r.pat;
                                    if squash(&toks(q)) != *nm {
                                        lets.push(quote!(let #q = *#v;));
                                    }
                                }
                                p if squash(&toks(p)) != *nm => lets.push(quote!(let #p = #v;)),
                                _ => {}
                            }
                        }
                    }
                    let st = format_ident!("vxmark_closurestart_{n}");
                    let st = self.dir.places.contains_key(&format!("closurestart {n}")).then(|| quote!(#st!();));
                    *e = parse2::<Expr>(quote!(#id!{ #(#lets)* #st #b })).unwrap();
                }
            }
            // a consuming iterator method: its receiver gets a name (`vx_f`) for the proof
            Expr::MethodCall(m) if ["find", "fold", "any", "all"].contains(&m.method.to_string().as_str()) => {
                let n = self.finds;
                self.finds += 1;
                visit_mut::visit_expr_mut(self, e);
                if let Some(ty) = self.dir.opts.iter().find_map(|o| o.strip_prefix("fold-loop ")) {
                    // the loop `Iterator::fold` stands for
                    let ty: syn::Type = syn::parse_str(ty).unwrap();
                    if let Expr::MethodCall(m) = e {
                        if let ("fold", Some(i0), Some(Expr::Closure(c))) = (m.method.to_string().as_str(), m.args.first(), m.args.iter().nth(1)) {
                            let l = self.loops;
                            self.loops += 1;
                            let (x, p, q, b) = (&m.receiver, &c.inputs[0], &c.inputs[1], &c.body);
                            let inv = format_ident!("vxmark_inv_{l}");
                            let id = format_ident!("vxmark_find_{n}");
                            let id2 = format_ident!("vxmark_found_{n}");
                            let st = format_ident!("vxmark_loopstart_{l}");
                            let stq = self.dir.places.contains_key(&format!("loopstart {l}")).then(|| quote!(#st!();));
                            let en = format_ident!("vxmark_loopend_{l}");
                            let enq = self.dir.places.contains_key(&format!("loopend {l}")).then(|| quote!(#en!();));
                            *e = parse2::<Expr>(quote!({
                                let mut vx_f = #x;
                                let mut vx_r: #ty = #i0;
                                #id!();
                                loop { #inv!(); match vx_f.next() {
                                    None => break,
                                    Some(#q) => { #stq vx_r = { let #p = vx_r; #b }; #enq }
                                } }
                                #id2!();
                                vx_r
                            })).unwrap();
                        }
                    }
                } else if let Some(ty) = self.dir.opts.iter().find_map(|o| o.strip_prefix("find-loop ")) {
                    let ty: syn::Type = syn::parse_str(ty).unwrap();
                    // the loop `Iterator::find` stands for, over the iterator's own `next`
                    if let Expr::MethodCall(m) = e {
                        if let (true, Some(Expr::Closure(c))) = (m.method == "find", m.args.first()) {
                            let l = self.loops;
                            self.loops += 1;
                            let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                            let inv = format_ident!("vxmark_inv_{l}");
                            let id = format_ident!("vxmark_find_{n}");
                            let id2 = format_ident!("vxmark_found_{n}");
                            let st = format_ident!("vxmark_loopstart_{l}");
                            let stq = self.dir.places.contains_key(&format!("loopstart {l}")).then(|| quote!(#st!();));
                            *e = parse2::<Expr>(quote!({
                                let mut vx_f = #x;
                                let mut vx_r: Option<#ty> = None;
                                #id!();
                                loop { #inv!(); match vx_f.next() {
                                    None => break,
                                    Some(vx_x) => { #stq if { let #p = &vx_x; #b } { vx_r = Some(vx_x); break; } }
                                } }
                                #id2!();
                                vx_r
                            })).unwrap();
                        }
                    }
                } else if self.dir.places.contains_key(&format!("find {n}")) {
                    if let Expr::MethodCall(m) = e {
                        let (x, f, a) = (&m.receiver, &m.method, &m.args);
                        let id = format_ident!("vxmark_find_{n}");
                        let id2 = format_ident!("vxmark_found_{n}");
                        *e = parse2::<Expr>(quote!({ let mut vx_f = #x; #id!(); let vx_r = vx_f.#f(#a); #id2!(); vx_r })).unwrap();
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Token printer: one line per statement, joint punctuation kept together.
pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    pr(ts, &mut s);
    s
}
fn pr(ts: TokenStream, s: &mut String) {
    let mut glue = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                pr(g.stream(), s);
                s.push_str(c);
                if !c.ends_with('\n') {
                    s.push(' ');
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                glue = p.spacing() == Spacing::Joint || p.as_char() == '\'';
                if p.as_char() == ';' {
                    s.push('\n');
                } else if !glue {
                    s.push(' ');
                }
            }
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
                glue = false;
            }
        }
    }
    let _ = glue;
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    print(t.to_token_stream())
}
pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
pub fn find_matching(s: &str, open: usize) -> Res<usize> {
    let b = s.as_bytes();
    let (o, c) = match b[open] {
        b'(' => (b'(', b')'),
        b'{' => (b'{', b'}'),
        _ => return Err("find_matching".into()),
    };
    let mut d = 0i32;
    let mut instr = false;
    let mut i = open;
    while i < b.len() {
        let ch = b[i];
        if instr {
            if ch == b'\\' {
                i += 1;
            } else if ch == b'"' {
                instr = false;
            }
        } else if ch == b'"' {
            instr = true;
        } else if ch == b'\'' && i + 2 < b.len() && b[i + 1] != b'\\' && b[i + 2] == b'\'' {
            i += 2; // one-byte char literal such as '(' or '{'
        } else if ch == o {
            d += 1;
        } else if ch == c {
            d -= 1;
            if d == 0 {
                return Ok(i);
            }
        }
        i += 1;
    }
    Err("unbalanced".into())
}
