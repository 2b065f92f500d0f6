use crate::passes::*;
use crate::{FnDir, Res, Unit};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

thread_local! {
    // modules that do without "equal contents, equal Vec/String"
    pub static NOEXT: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
    pub static PRIVATE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}

struct Ctx {
    repo: PathBuf,
    files: HashMap<String, File>,
}

impl Ctx {
    fn file(&mut self, f: &str) -> Res<&File> {
        if !self.files.contains_key(f) {
            let p = self.repo.join(f);
            let t = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: {f}: {e}"))?;
            let a = syn::parse_file(&t).map_err(|e| format!("parse {f}: {e}"))?;
            self.files.insert(f.to_string(), a);
        }
        Ok(&self.files[f])
    }
}

pub fn module_of(f: &str) -> (String, String) {
    let krate = f.split('/').next().unwrap().to_string();
    let stem = f.rsplit('/').next().unwrap().trim_end_matches(".rs").to_string();
    let root = match krate.as_str() {
        "svd-rs" => "svd",
        "svd-parser" => "parser",
        "svd-encoder" => "encoder",
        x => x,
    };
    let m = if stem == "lib" { root.to_string() } else { format!("{root}::{stem}") };
    (krate, m)
}

fn cfg_skip(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let t = squash(&toks(&a.meta));
        t.contains("(test)") || t.contains("feature=\"serde\"") || t.contains("feature=\"yaml\"")
    })
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let t = squash(&toks(&a.meta));
            let t = t.trim_start_matches("derive(").trim_end_matches(')');
            v.extend(t.split(',').map(|s| s.rsplit("::").next().unwrap().to_string()));
        }
    }
    v
}

struct Strip {
    krate: String,
}
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, _v: &mut Visibility) {}
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        map_path(p, &self.krate);
    }
}

fn pub_fields(f: &mut Fields) {
    let public: Visibility = parse_quote!(pub);
    match f {
        Fields::Named(n) => n.named.iter_mut().for_each(|f| f.vis = public.clone()),
        Fields::Unnamed(n) => n.unnamed.iter_mut().for_each(|f| f.vis = public.clone()),
        _ => {}
    }
}

fn default_expr(ty: &Type) -> String {
    let t = squash(&toks(ty));
    if t.starts_with("Option<") {
        "None".into()
    } else if t.starts_with("Vec<") {
        "Vec::new()".into()
    } else if t == "bool" {
        "false".into()
    } else if t == "u32" || t == "u64" || t == "usize" {
        "0".into()
    } else if t == "String" {
        "String::new()".into()
    } else {
        format!("<{} as Default>::default()", toks(ty))
    }
}

/// A struct, enum or type alias: attributes dropped, fields public; the derives and thiserror's
/// `#[from]` become the impls they stand for.
fn emit_type(it: &Item, krate: &str, extra: &str, out: &mut String) -> Res<()> {
    let mut st = Strip { krate: krate.to_string() };
    match it {
        Item::Type(t) => {
            let mut t = t.clone();
            st.visit_item_type_mut(&mut t);
            t.vis = parse_quote!(pub);
            out.push_str(&toks(&t));
        }
        Item::Const(c) => {
            let mut c = c.clone();
            st.visit_item_const_mut(&mut c);
            c.vis = parse_quote!(pub);
            out.push_str(&toks(&c));
        }
        Item::Struct(s) => {
            let d = derives(&s.attrs);
            let mut s2 = s.clone();
            st.visit_item_struct_mut(&mut s2);
            s2.vis = parse_quote!(pub);
            // (a type with a type invariant keeps its fields private)
            if !PRIVATE.with(|p| p.borrow().contains(&s2.ident.to_string())) {
                pub_fields(&mut s2.fields);
            }
            type_head(&d, false, extra, out);
            out.push_str(&toks(&s2));
            clone_impl(&d, &s2.ident, &s2.generics, extra, out);
            eq_impl(&d, false, extra, &s2.ident, out);
            if d.contains(&"Default".to_string()) && !extra.contains("nodefault") {
                if let Fields::Named(n) = &s2.fields {
                    let mut ex = String::new();
                    let mut en = String::new();
                    for f in &n.named {
                        let e = default_expr(&f.ty);
                        let nm = f.ident.as_ref().unwrap();
                        ex.push_str(&format!("{nm}: {e}, "));
                        if e == "None" {
                            en.push_str(&format!("r.{nm} is None, "));
                        } else if e == "Vec::new()" || e == "String::new()" {
                            en.push_str(&format!("r.{nm}@.len() == 0, "));
                        } else if e == "0" || e == "false" {
                            en.push_str(&format!("r.{nm} == {e}, "));
                        } else {
                            en.push_str(&format!("<{} as crate::spec::DefSpec>::def_ok(r.{nm}), ", toks(&f.ty)));
                        }
                    }
                    let id = &s2.ident;
                    out.push_str(&format!(
                        "impl crate::spec::DefSpec for {id} {{ open spec fn def_ok(r: Self) -> bool {{ {} }} }}\n",
                        en.trim_end_matches(", ").replace(", ", " && ").replace(",", " &&")
                    ));
                    out.push_str(&format!(
                        "impl Default for {id} {{ fn default() -> (r: Self) ensures <{id} as crate::spec::DefSpec>::def_ok(r) {{ {id} {{ {ex} }} }} }}\n"
                    ));
                }
            }
        }
        Item::Enum(e) => {
            let d = derives(&e.attrs);
            // (a `Copy` type with a derived `Eq` holds no text and no floats: equality is identity)
            let plain = e.variants.iter().all(|v| v.fields.is_empty())
                || (krate == "svd-encoder" && e.generics.params.is_empty() && ["Copy", "PartialEq", "Eq"].iter().all(|x| d.contains(&x.to_string())));
            let mut froms = vec![];
            for v in &e.variants {
                if let Fields::Unnamed(u) = &v.fields {
                    if u.unnamed.len() == 1 && u.unnamed[0].attrs.iter().any(|a| a.path().is_ident("from")) {
                        froms.push((v.ident.clone(), u.unnamed[0].ty.clone()));
                    }
                }
            }
            let dv = e
                .variants
                .iter()
                .find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
                .map(|v| v.ident.clone());
            let mut e2 = e.clone();
            st.visit_item_enum_mut(&mut e2);
            e2.vis = parse_quote!(pub);
            type_head(&d, plain, extra, out);
            out.push_str(&toks(&e2));
            clone_impl(&d, &e2.ident, &e2.generics, extra, out);
            eq_impl(&d, plain, extra, &e2.ident, out);
            let id = &e2.ident;
            if !extra.contains("nofrom") {
                for (v, mut t) in froms {
                    st.visit_type_mut(&mut t);
                    let t = toks(&t);
                    out.push_str(&format!(
                        "impl vstd::std_specs::convert::FromSpecImpl<{t}> for {id} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(e: {t}) -> {id} {{ {id}::{v}(e) }} }}\nimpl From<{t}> for {id} {{ #[verifier::external_body] fn from(e: {t}) -> Self {{ {id}::{v}(e) }} }}\n"
                    ));
                }
            }
            if let (Some(dv), true) = (dv, d.contains(&"Default".to_string())) {
                out.push_str(&format!(
                    "impl crate::spec::DefSpec for {id} {{ open spec fn def_ok(r: Self) -> bool {{ r == {id}::{dv} }} }}\n"
                ));
                out.push_str(&format!(
                    "impl Default for {id} {{ fn default() -> (r: Self) ensures <{id} as crate::spec::DefSpec>::def_ok(r) {{ {id}::{dv} }} }}\n"
                ));
            }
        }
        _ => return Err("unsupported item".into()),
    }
    out.push('\n');
    Ok(())
}

fn type_head(d: &[String], plain: bool, extra: &str, out: &mut String) {
    let mut v = vec![];
    if d.iter().any(|x| x == "Copy") {
        v.push("Clone");
        v.push("Copy");
    }
    if d.iter().any(|x| x == "PartialEq") && (plain || extra.contains("eq")) && !extra.contains("noteq") {
        v.push("PartialEq");
        v.push("Eq");
    }
    if d.iter().any(|x| x == "Hash") && extra.contains("hash") {
        v.push("Hash");
    }
    if !v.is_empty() {
        out.push_str(&format!("#[derive({})]\n", v.join(", ")));
    }
}

fn eq_impl(d: &[String], plain: bool, extra: &str, id: &Ident, out: &mut String) {
    if d.iter().any(|x| x == "PartialEq") && (plain || extra.contains("eq")) && !extra.contains("noteq") {
        out.push_str(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {id} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{id}) -> bool {{ *self == *o }} }} // derived PartialEq\n"));
    }
}

fn clone_impl(d: &[String], id: &Ident, g: &Generics, extra: &str, out: &mut String) {
    if d.iter().any(|x| x == "Clone") && !d.iter().any(|x| x == "Copy") && !extra.contains("noclone") {
        let names: Vec<String> = g.type_params().map(|p| p.ident.to_string()).collect();
        let (a, b) = if names.is_empty() {
            (String::new(), String::new())
        } else {
            (
                format!("<{}>", names.iter().map(|n| format!("{n}: Clone")).collect::<Vec<_>>().join(", ")),
                format!("<{}>", names.join(", ")),
            )
        };
        out.push_str(&format!(
            "impl{a} Clone for {id}{b} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }} // derived Clone (trusted)\n"
        ));
    }
}

// a body for a function that is not verified here (an `impl Iterator` needs a type behind it)
fn trusted_body(o: &ReturnType) -> String {
    if let ReturnType::Type(_, t) = o {
        if let Type::ImplTrait(i) = &**t {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    if let Some(PathArguments::AngleBracketed(a)) = tb.path.segments.last().map(|s| s.arguments.clone()) {
                        for g in &a.args {
                            if let GenericArgument::AssocType(x) = g {
                                if x.ident == "Item" {
                                    return format!("{{ std::iter::empty::<{}>() }}", toks(&x.ty));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    "{ unimplemented!() }".to_string()
}

struct Found {
    imp: Option<ItemImpl>,
    tr: Option<ItemTrait>, // a default method of this trait
    sig: Signature,
    block: Block,
    line: usize,
}

fn find_fn(f: &File, path: &str) -> Res<Found> {
    let mut hits: Vec<Found> = vec![];
    // `trait T::m`: a default method
    if let Some(r) = path.strip_prefix("trait ") {
        let (t, m) = r.rsplit_once("::").ok_or(format!("bad path {path}"))?;
        for it in &f.items {
            if let Item::Trait(tr) = it {
                for ti in tr.items.iter().filter(|_| tr.ident == t) {
                    if let TraitItem::Fn(TraitItemFn { sig, default: Some(b), .. }) = ti {
                        if sig.ident == m {
                            return Ok(Found { imp: None, tr: Some(tr.clone()), sig: sig.clone(), block: b.clone(), line: sig.ident.span().start().line });
                        }
                    }
                }
            }
        }
        return Err(format!("lost anchor: {path}"));
    }
    // `<T as Trait>::m`, `T::m` or `f`
    let (ty, tr, name) = if let Some(r) = path.strip_prefix('<') {
        let (q, m) = r.rsplit_once(">::").ok_or(format!("bad path {path}"))?;
        let (t, tr) = q.split_once(" as ").ok_or(format!("bad path {path}"))?;
        (Some(squash(t)), Some(squash(tr)), m.to_string())
    } else if let Some((t, m)) = path.rsplit_once("::") {
        (Some(squash(t)), None, m.to_string())
    } else {
        (None, None, path.to_string())
    };
    fn ty_match(t: &Type, want: &str) -> bool {
        let full = squash(&toks(t));
        if full == want {
            return true;
        }
        if let Type::Path(p) = t {
            let l = p.path.segments.last().unwrap();
            return l.ident == want;
        }
        false
    }
    for it in &f.items {
        match it {
            Item::Fn(i) if ty.is_none() && i.sig.ident == name && !cfg_skip(&i.attrs) => hits.push(Found {
                imp: None,
                tr: None,
                sig: i.sig.clone(),
                block: (*i.block).clone(),
                line: i.sig.ident.span().start().line,
            }),
            Item::Impl(im) if ty.is_some() && !cfg_skip(&im.attrs) => {
                if !ty_match(&im.self_ty, ty.as_ref().unwrap()) {
                    continue;
                }
                let itr = im.trait_.as_ref().map(|t| squash(&toks(&t.1)));
                match (&tr, &itr) {
                    (Some(a), Some(b)) if a == b || b.rsplit("::").next() == Some(a) => {}
                    (Some(_), _) => continue,
                    _ => {}
                }
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == name && !cfg_skip(&m.attrs) {
                            hits.push(Found {
                                imp: Some(im.clone()),
                                tr: None,
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                line: m.sig.ident.span().start().line,
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match hits.len() {
        1 => Ok(hits.pop().unwrap()),
        0 => Err(format!("lost anchor: {path}")),
        _ => {
            // prefer an inherent method
            let k: Vec<usize> =
                (0..hits.len()).filter(|i| hits[*i].imp.as_ref().map_or(true, |m| m.trait_.is_none())).collect();
            if k.len() == 1 {
                Ok(hits.swap_remove(k[0]))
            } else {
                Err(format!("ambiguous anchor: {path}"))
            }
        }
    }
}

struct Emitted {
    module: String,
    header: String, // impl header, or "" for a free function
    assoc: String,
    text: String,
}

fn splice(text: &mut String, marker: &str, rep: &str) -> Res<bool> {
    let pat = format!("{marker}!");
    let alt = format!("{marker} !");
    let pos = match text.find(&pat).or_else(|| text.find(&alt)) {
        Some(p) => p,
        None => return Ok(false),
    };
    // `name ! ( ) ;`
    let end = pos + text[pos..].find(';').ok_or("marker")? + 1;
    text.replace_range(pos..end, rep);
    Ok(true)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// the literal of `Regex::new(LITERAL)` inside `e`
fn regex_lit<T: quote::ToTokens>(e: &T) -> Option<String> {
    struct V(Option<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if squash(&toks(&c.func)).ends_with("Regex::new") {
                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = c.args.first() {
                    self.0 = Some(l.value());
                }
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    let e: Expr = syn::parse2(e.to_token_stream()).ok()?;
    let mut v = V(None);
    syn::visit::Visit::visit_expr(&mut v, &e);
    v.0
}

/// `PATTERN.is_match(x)` becomes the call `crate::spec::vx_pattern_<function>(x)`; the regular
/// expression itself is handed to the SMT part through the info file.
fn take_pattern(block: &mut Block, file: &File, name: &str) -> Res<Option<String>> {
    use syn::visit_mut::VisitMut;
    let mut pats: std::collections::BTreeMap<String, String> = Default::default();
    for i in &file.items {
        if let Item::Static(s) = i {
            if let Some(l) = regex_lit(&s.expr) {
                pats.insert(s.ident.to_string(), l);
            }
        }
    }
    block.stmts.retain(|s| {
        if let Stmt::Item(Item::Static(s)) = s {
            if let Some(l) = regex_lit(&s.expr) {
                pats.insert(s.ident.to_string(), l);
                return false;
            }
        }
        true
    });
    struct M<'a> {
        pats: &'a std::collections::BTreeMap<String, String>,
        name: &'a str,
        found: Vec<String>,
        bad: bool,
    }
    impl VisitMut for M<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::MethodCall(m) = e {
                if m.method == "is_match" && m.args.len() == 1 {
                    let r = squash(&toks(&m.receiver));
                    let lit = self.pats.get(&r).cloned().or_else(|| regex_lit(&m.receiver));
                    match lit {
                        Some(l) => {
                            self.found.push(l);
                            let f = Ident::new(&format!("vx_pattern_{}", self.name), proc_macro2::Span::call_site());
                            let a = m.args.first().cloned();
                            *e = syn::parse_quote!(crate::spec::#f(#a));
                        }
                        None => self.bad = true,
                    }
                }
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut m = M { pats: &pats, name, found: vec![], bad: false };
    m.visit_block_mut(block);
    if m.bad || m.found.len() > 1 {
        return Err("regular expression use".into());
    }
    Ok(m.found.pop())
}

fn emit_fn(cx: &mut Ctx, d: &FnDir, canary: bool, idx: usize, info: &mut Vec<String>) -> Res<Emitted> {
    let (krate, module) = module_of(&d.file);
    let fnd = find_fn(cx.file(&d.file)?, &d.path)?;
    let where_ = format!("{} {}", d.file, d.path);
    let mut sig = fnd.sig.clone();
    let mut block = fnd.block.clone();
    let hash_src = format!("{} {}", squash(&toks(&sig)), squash(&toks(&block)));
    // signature
    let mut this = false;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            this = true;
        }
    }
    sig.constness = None;
    if let Some(n) = &d.rename {
        sig.ident = Ident::new(n, sig.ident.span());
    }
    let pattern = take_pattern(&mut block, cx.file(&d.file)?, &sig.ident.to_string())
        .map_err(|e| format!("unsupported construct in {where_}: {e}"))?;
    let result = match &sig.output {
        ReturnType::Type(_, t) => {
            let t = squash(&toks(t));
            t.starts_with("Result<") || t.contains("::Result<") && !t.starts_with("Option<")
        }
        _ => false,
    };
    let mut rw = Rw { dir: d, krate: krate.clone(), errs: vec![], this: false, result: false };
    rw.visit_signature_mut(&mut sig);
    let mut rw = Rw { dir: d, krate: krate.clone(), errs: vec![], this, result };
    rw.visit_block_mut(&mut block);
    if !rw.errs.is_empty() {
        return Err(format!("unsupported construct in {where_}: {}", rw.errs.join("; ")));
    }
    if d.opts.iter().any(|o| o == "assign-if") {
        crate::passes::AssignIf.visit_block_mut(&mut block);
    }
    let mut mk = Mark { dir: d, loops: 0, closures: 0, finds: 0, canary };
    mk.visit_block_mut(&mut block);
    if d.loops.keys().any(|k| *k >= mk.loops) {
        return Err(format!("lost anchor: loop count of {where_} is {}", mk.loops));
    }
    if d.closures.keys().any(|k| *k >= mk.closures) {
        return Err(format!("lost anchor: closure count of {where_} is {}", mk.closures));
    }
    let mut body = toks(&block);
    // body starts with "{\n"
    if d.opts.iter().any(|o| o == "count") && mk.loops != d.loops.len() {
        return Err(format!("lost anchor: loop count of {where_} is {}", mk.loops));
    }
    for n in 0..mk.loops {
        let inv = d.loops.get(&n).map(|l| l.inv.clone()).unwrap_or_default();
        let m = format!("vxmark_inv_{n}");
        let pos = body.find(&format!("{m} !")).or_else(|| body.find(&format!("{m}!"))).ok_or("marker inv")?;
        let end = pos + body[pos..].find(';').unwrap() + 1;
        let open = body[..pos].rfind('{').ok_or("marker brace")?;
        if !body[open + 1..pos].trim().is_empty() {
            return Err("marker inv position".into());
        }
        body.replace_range(open..end, &format!("\n{inv}{{"));
        for k in ["loopstart", "loopend", "preloop", "beforeloop", "afterloop"] {
            if let Some(t) = d.places.get(&format!("{k} {n}")) {
                if !splice(&mut body, &format!("vxmark_{k}_{n}"), &format!("\n{t}\n"))? {
                    return Err(format!("{where_}: no place for {k} {n}"));
                }
            }
        }
        let it = format!("vxmark_it_{n}");
        if let Some(p) = body.find(&it) {
            let open = p + body[p..].find('(').unwrap();
            let close = find_matching(&body, open)?;
            let inner = body[open + 1..close].to_string();
            let name = d.loops[&n].iter.clone().unwrap();
            body.replace_range(p..close + 1, &format!("{name}: {inner}"));
        }
    }
    for n in 0..mk.finds {
        if let Some(t) = d.places.get(&format!("find {n}")) {
            splice(&mut body, &format!("vxmark_find_{n}"), &format!("\n{t}\n"))?;
            let t = d.places.get(&format!("found {n}")).cloned().unwrap_or_default();
            splice(&mut body, &format!("vxmark_found_{n}"), &format!("\n{t}\n"))?;
        }
    }
    if d.places.keys().any(|k| k.strip_prefix("find ").is_some_and(|n| n.parse::<usize>().unwrap_or(99) >= mk.finds)) {
        return Err(format!("lost anchor: iterator calls of {where_}"));
    }
    for (n, head) in &d.closures {
        let m = format!("vxmark_clo_{n}");
        let p = body.find(&m).ok_or("marker closure")?;
        let open = p + body[p..].find('{').unwrap();
        body.replace_range(p..open, head.trim_end());
        if let Some(t) = d.places.get(&format!("closurestart {n}")) {
            if !splice(&mut body, &format!("vxmark_closurestart_{n}"), &format!("\n{t}\n"))? {
                return Err(format!("{where_}: no place for closurestart {n}"));
            }
        }
    }
    // `before TEXT` / `after TEXT`: proof text next to the statement starting with TEXT
    for (k, t) in &d.places {
        if let Some(a) = k.strip_prefix("before ") {
            let want = squash(a);
            let pos = find_squashed(&body, &want).ok_or(format!("lost anchor: `{a}` in {where_}"))?;
            body.insert_str(pos, &format!("\n{t}\n"));
        }
        if let Some(a) = k.strip_prefix("after ") {
            let want = squash(a);
            let pos = find_squashed(&body, &want).ok_or(format!("lost anchor: `{a}` in {where_}"))?;
            // end of that statement
            let mut depth = 0i32;
            let mut e = pos;
            for (i, c) in body[pos..].char_indices() {
                match c {
                    '(' | '[' | '{' => depth += 1,
                    ')' | ']' | '}' => depth -= 1,
                    ';' if depth == 0 => {
                        e = pos + i + 1;
                        break;
                    }
                    _ => {}
                }
            }
            body.insert_str(e, &format!("\n{t}\n"));
        }
    }
    for (a, b) in &d.subst {
        let want = squash(a);
        let mut n = 0;
        let mut from = 0;
        while let Some(pos) = find_squashed(&body[from..], &want) {
            let pos = from + pos;
            let end = end_squashed(&body, pos, &want);
            body.replace_range(pos..end, b);
            from = pos + b.len();
            n += 1;
        }
        if n == 0 {
            return Err(format!("lost anchor: `{a}` in {where_}"));
        }
    }
    let mut inner = body.trim().to_string();
    if !inner.starts_with('{') {
        return Err("body".into());
    }
    let mut pre = String::new();
    if this {
        pre.push_str("\nlet mut this = self;\n");
    }
    let mut lits = std::collections::BTreeSet::new();
    if !d.opts.iter().any(|o| o == "nolit") {
        let b = inner.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'"' {
                let mut j = i + 1;
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        j += 1;
                    }
                    j += 1;
                }
                lits.insert(inner[i..j + 1].to_string());
                i = j;
            } else if b[i] == b'\'' && i + 2 < b.len() && b[i + 2] == b'\'' {
                i += 2;
            }
            i += 1;
        }
    }
    if !lits.is_empty() {
        let t: String = lits.iter().map(|l| format!("reveal_strlit({l});")).collect();
        pre.push_str(&format!("\nproof {{ {t} }}\n"));
    }
    if let Some(t) = d.places.get("result") {
        // the value of the tail expression gets a name, `vx_ret`, for the proof
        let ty = match &sig.output {
            ReturnType::Type(_, t) if !matches!(**t, Type::ImplTrait(_)) => format!(": {}", toks(t)),
            _ => String::new(),
        };
        inner = format!("{{\nlet vx_ret{ty} = {inner};\n{t}\nvx_ret\n}}");
    }
    if let Some(t) = d.places.get("start") {
        pre.push_str(&format!("\n{t}\n"));
    }
    let name = sig.ident.to_string();
    if canary && !d.trusted {
        pre.push_str("\nassert(false);\n");
    }
    inner.insert_str(1, &pre);
    if let Some(t) = d.places.get("end") {
        // proof text after the last statement of a body without tail expression, or around the tail
        let p = inner.rfind('}').unwrap();
        inner.insert_str(p, &format!("\n{t}\n"));
    }
    // signature text
    let ret = sig.output.clone();
    sig.output = ReturnType::Default;
    let wh = sig.generics.where_clause.take();
    let mut st = toks(&sig);
    let r = match &ret {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => match &d.ret {
            Some(n) => format!("-> ({n}: {}) ", toks(t)),
            None => format!("-> {} ", toks(t)),
        },
    };
    st.push_str(&r);
    if let Some(w) = wh {
        st.push_str(toks(&w).trim_end().trim_end_matches(','));
        st.push_str(", ");
    }
    for (a, b) in &d.sigsubst {
        let want = squash(a);
        let pos = find_squashed(&st, &want).ok_or(format!("lost anchor: sig `{a}` in {where_}"))?;
        let end = end_squashed(&st, pos, &want);
        st.replace_range(pos..end, b);
    }
    if !st.contains("where ") && st.trim_end().ends_with(',') {
        st.truncate(st.trim_end().len() - 1);
    }
    let vis = if d.as_trait || fnd.tr.is_some() { "" } else { "pub " };
    let trusted = if d.trusted { "#[verifier::external_body]\n" } else { "" };
    let body_text = if d.trusted { trusted_body(&ret) } else { inner };
    let text = format!(
        "// @@FN {idx} {where_}\n{}{trusted}{vis}{st}\n{}\n{body_text}\n// @@END {idx}\n",
        d.attrs, d.contract
    );
    let impltext = d.places.get("impltext").cloned().unwrap_or_default();
    let (header, assoc) = match (&fnd.imp, &fnd.tr) {
        (None, Some(t)) => {
            let mut t = t.clone();
            Strip { krate: krate.clone() }.visit_item_trait_mut(&mut t);
            let mut assoc = String::new();
            for i in &t.items {
                if let TraitItem::Type(a) = i {
                    assoc.push_str(&toks(a));
                }
            }
            assoc.push_str(&impltext);
            let (id, g) = (&t.ident, &t.generics);
            let (ig, _, w) = g.split_for_impl();
            (toks(&quote!(pub trait #id #ig #w)), assoc)
        }
        (None, None) => (String::new(), String::new()),
        (Some(im), _) => {
            let mut im = im.clone();
            let mut s = Strip { krate: krate.clone() };
            s.visit_generics_mut(&mut im.generics);
            s.visit_type_mut(&mut im.self_ty);
            let g = &im.generics;
            let (ig, _, w) = g.split_for_impl();
            let ty = &im.self_ty;
            if d.as_trait {
                let mut t = im.trait_.clone().ok_or(format!("{where_}: not a trait impl"))?.1;
                s.visit_path_mut(&mut t);
                let mut assoc = String::new();
                for i in &im.items {
                    if let ImplItem::Type(t) = i {
                        let mut t = t.clone();
                        s.visit_impl_item_type_mut(&mut t);
                        assoc.push_str(&toks(&t));
                    }
                }
                assoc.push_str(&impltext);
                (toks(&quote!(impl #ig #t for #ty #w)), assoc)
            } else {
                (toks(&quote!(impl #ig #ty #w)), String::new())
            }
        }
    };
    let pattern = pattern.map(|p| format!(",\"pattern\":{}", json(&p))).unwrap_or_default();
    info.push(format!(
        "{{\"id\":{idx},\"file\":{:?},\"path\":{:?},\"line\":{},\"name\":{:?},\"trusted\":{},\"loops\":{},\"hash\":\"{:016x}\"{pattern}}}",
        d.file,
        d.path,
        fnd.line,
        name,
        d.trusted,
        mk.loops,
        fnv(&hash_src)
    ));
    Ok(Emitted { module, header, assoc, text })
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// byte offset at which the non-white characters of `hay` start to spell `want`
fn find_squashed(hay: &str, want: &str) -> Option<usize> {
    let h: Vec<(usize, char)> = hay.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    let w: Vec<char> = want.chars().collect();
    if w.is_empty() || h.len() < w.len() {
        return None;
    }
    (0..=h.len() - w.len()).find(|i| (0..w.len()).all(|k| h[i + k].1 == w[k])).map(|i| h[i].0)
}
fn end_squashed(hay: &str, pos: usize, want: &str) -> usize {
    let n = want.chars().count();
    let mut k = 0;
    for (i, c) in hay[pos..].char_indices() {
        if !c.is_whitespace() {
            k += 1;
            if k == n {
                return pos + i + c.len_utf8();
            }
        }
    }
    hay.len()
}

#[derive(Default)]
struct Mod {
    text: String,
    subs: BTreeMap<String, Mod>,
}
impl Mod {
    fn at(&mut self, path: &str) -> &mut Mod {
        let mut m = self;
        for p in path.split("::") {
            m = m.subs.entry(p.to_string()).or_default();
        }
        m
    }
    fn print(&self, path: &str, uses: &dyn Fn(&str) -> String, out: &mut String) {
        out.push_str(&self.text);
        for (n, m) in &self.subs {
            let p = if path.is_empty() { n.clone() } else { format!("{path}::{n}") };
            out.push_str(&format!("pub mod {n} {{\n{}", uses(&p)));
            m.print(&p, uses, out);
            out.push_str("}\n");
        }
    }
}

pub fn emit(repo: &Path, u: &Unit, canary: bool) -> Res<(String, String)> {
    let mut cx = Ctx { repo: repo.to_path_buf(), files: HashMap::new() };
    let mut root = Mod::default();
    let mut info = vec![];
    // types of whole crates
    for (c, skip) in &u.crates {
        let dir = repo.join(c).join("src");
        let mut names: Vec<String> = std::fs::read_dir(&dir)
            .map_err(|e| format!("{}: {e}", dir.display()))?
            .filter_map(|e| e.ok()?.file_name().into_string().ok())
            .filter(|n| n.ends_with(".rs"))
            .collect();
        names.sort();
        for n in names {
            let f = format!("{c}/src/{n}");
            let (krate, module) = module_of(&f);
            let file = cx.file(&f)?.clone();
            for it in &file.items {
                let (attrs, id) = match it {
                    Item::Struct(s) => (&s.attrs, s.ident.to_string()),
                    Item::Enum(s) => (&s.attrs, s.ident.to_string()),
                    Item::Type(s) => (&s.attrs, s.ident.to_string()),
                    _ => continue,
                };
                let q = format!("{module}::{id}");
                if cfg_skip(attrs) || skip.iter().any(|s| *s == id || *s == q || *s == module) {
                    continue;
                }
                let mut t = String::new();
                emit_type(it, &krate, "", &mut t).map_err(|e| format!("{f} {id}: {e}"))?;
                root.at(&module).text.push_str(&t);
            }
            let m = root.at(&module);
            if m.text.is_empty() {
                m.text.push('\n');
            }
        }
    }
    for (f, n, extra) in &u.items {
        let (krate, module) = module_of(f);
        let file = cx.file(f)?.clone();
        let it = file
            .items
            .iter()
            .find(|it| match it {
                Item::Struct(s) => s.ident == n,
                Item::Enum(s) => s.ident == n,
                Item::Type(s) => s.ident == n,
                Item::Const(s) => s.ident == n,
                _ => false,
            })
            .ok_or(format!("lost anchor: {f} {n}"))?;
        let mut t = String::new();
        emit_type(it, &krate, extra, &mut t)?;
        root.at(&module).text.push_str(&t);
    }
    // functions, grouped by module and impl header
    let mut groups: Vec<(String, String, String, String)> = vec![];
    for (i, d) in u.fns.iter().enumerate() {
        let e = emit_fn(&mut cx, d, canary, i, &mut info)?;
        match groups.iter_mut().find(|g| g.0 == e.module && g.1 == e.header && !e.header.is_empty()) {
            Some(g) => g.3.push_str(&e.text),
            None => groups.push((e.module, e.header, e.assoc, e.text)),
        }
    }
    // `//@ module M first`: text that has to come before the functions of M
    for (m, t) in &u.raw {
        if let Some(m) = m.strip_suffix(" first") {
            root.at(m).text.push_str(t);
        }
    }
    for (m, h, a, t) in groups {
        let dst = &mut root.at(&m).text;
        if h.is_empty() {
            dst.push_str(&t);
        } else {
            dst.push_str(&format!("{h} {{\n{a}\n{t}}}\n"));
        }
    }
    for (m, t) in u.raw.iter().filter(|r| !r.0.ends_with(" first")) {
        root.at(m).text.push_str(t);
    }
    root.at("spec");
    let mut out = String::new();
    out.push_str("#![allow(unused, dead_code, non_snake_case, non_camel_case_types)]\n");
    out.push_str(&u.head);
    out.push_str("use vstd::prelude::*;\nverus! {\n");
    let has_svd = root.subs.contains_key("svd");
    let subs: Vec<String> =
        root.subs.get("svd").map(|m| m.subs.keys().cloned().collect::<Vec<_>>()).unwrap_or_default();
    let reexp: String = subs
        .iter()
        .map(|s| format!("pub use self::{s}::*;\n"))
        .collect();
    let has_ax = root.subs.contains_key("ax");
    let uses = move |p: &str| -> String {
        let mut s = String::from("use vstd::prelude::*;\nuse vstd::std_specs::iter::IteratorSpec as _;\n");
        if has_ax && p != "ax" && p != "spec" {
            let base = NOEXT.with(|n| n.borrow().iter().any(|m| p == m || p.starts_with(&format!("{m}::"))));
            s.push_str(if base { "broadcast use crate::ax::vx_axioms_base;\n" } else { "broadcast use crate::ax::vx_axioms;\n" });
        }
        if p == "spec" || p == "ax" {
            if p == "ax" {
                s.push_str("use crate::spec::*;\n");
            }
            if has_svd {
                s.push_str("use crate::svd::*;\n");
            }
        } else if p == "svd" {
            s.push_str("use crate::spec::*;\n");
            s.push_str(&reexp);
        } else {
            s.push_str("use crate::spec::*;\nuse super::*;\n");
            if has_svd && !p.starts_with("svd::") {
                s.push_str("use crate::svd::*;\n");
            }
        }
        s
    };
    root.print("", &uses, &mut out);
    out.push_str("} // verus!\nfn main() {}\n");
    let _ = ItemFn::to_token_stream;
    Ok((out, format!("[{}]\n", info.join(",\n"))))
}
