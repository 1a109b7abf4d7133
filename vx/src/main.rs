//! vx: mechanical extractor.  Reads a proof unit (*.vx), pulls the named functions and types out of
//! the project's current source with `syn`, applies a fixed list of desugarings (documented in
//! DESIGN.md, "What the extraction changes"), splices in the contracts / invariants / ghost code of
//! the unit, and prints a Verus file.  It never invents executable code: everything executable in
//! the output is a node of the project's syntax tree or the fixed expansion of one.
mod desugar;
mod fx;
mod text;
mod unit;

use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::path::Path;
use syn::visit_mut::VisitMut;

use unit::{Entry, FnEntry, TypeEntry};

pub fn die(kind: &str, msg: &str) -> ! {
    // exit 3 = lost anchor (source no longer has what the unit refers to)
    eprintln!("VX-{kind}: {msg}");
    std::process::exit(3)
}

pub fn norm(ts: impl ToTokens) -> String {
    ts.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

struct Files {
    root: String,
    cache: HashMap<String, syn::File>,
}
impl Files {
    fn get(&mut self, rel: &str) -> &syn::File {
        if !self.cache.contains_key(rel) {
            // `@crate` names the compiler's macro expansion of a crate (written by bin/expand.sh from the same source)
            let p = match rel.strip_prefix('@') {
                Some(c) => Path::new(&std::env::var("VX_EXP").unwrap_or_else(|_| die("ANCHOR", "no expansion available"))).join(format!("{c}.rs")),
                None => Path::new(&self.root).join(rel),
            };
            let src = std::fs::read_to_string(&p).unwrap_or_else(|e| die("ANCHOR", &format!("{}: {e}", p.display())));
            let f = syn::parse_file(&src).unwrap_or_else(|e| die("ANCHOR", &format!("{}: parse: {e}", p.display())));
            self.cache.insert(rel.to_string(), f);
        }
        &self.cache[rel]
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(&a.meta);
        s.starts_with("cfg(test") || s == "test"
    })
}

enum Found {
    Free(syn::ItemFn),
    Method(syn::ItemImpl, syn::ImplItemFn),
    TraitDefault(syn::ItemTrait, syn::TraitItemFn),
}

fn self_ty_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn find_fn(items: &[syn::Item], path: &[String]) -> Option<Found> {
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                if path.len() == 1 && f.sig.ident == path[0] {
                    return Some(Found::Free(f.clone()));
                }
                if path.len() > 1 && f.sig.ident == path[0] {
                    let inner: Vec<syn::Item> = f
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None })
                        .collect();
                    if let Some(x) = find_fn(&inner, &path[1..]) {
                        return Some(x);
                    }
                }
            }
            syn::Item::Impl(im) if path.len() == 2 && !is_test(&im.attrs) => {
                let tyname = self_ty_name(&im.self_ty);
                let trname = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()));
                let want = &path[0];
                let hit = match want.split_once("@") {
                    // `Ty@Trait<Args>` asks for that instance of a generic trait, `Ty@Trait!` for the one without arguments
                    Some((ty, tr)) => {
                        let full = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last().map(|s| norm(s).replace(' ', "")));
                        tyname.as_deref() == Some(ty)
                            && if let Some(t) = tr.strip_suffix('!') {
                                full.as_deref() == Some(t)
                            } else if tr.contains('<') {
                                full.as_deref() == Some(tr)
                            } else {
                                trname.as_deref() == Some(tr)
                            }
                    }
                    None => tyname.as_deref() == Some(want.as_str()),
                };
                if hit {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == path[1] {
                                let mut head = im.clone();
                                head.items.clear();
                                head.attrs.clear();
                                return Some(Found::Method(head, f.clone()));
                            }
                        }
                    }
                }
            }
            syn::Item::Trait(tr) if path.len() == 2 && tr.ident == path[0] => {
                for ti in &tr.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.sig.ident == path[1] && f.default.is_some() {
                            let mut head = tr.clone();
                            head.items.clear();
                            return Some(Found::TraitDefault(head, f.clone()));
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, inner)) = &m.content {
                    if path.len() > 1 && m.ident == path[0] {
                        if let Some(x) = find_fn(inner, &path[1..]) {
                            return Some(x);
                        }
                    }
                    if let Some(x) = find_fn(inner, path) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn find_type(items: &[syn::Item], name: &str) -> Option<syn::Item> {
    for it in items {
        match it {
            syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Type(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Fn(f) => {
                let inner: Vec<syn::Item> = f
                    .block
                    .stmts
                    .iter()
                    .filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None })
                    .collect();
                if let Some(x) = find_type(&inner, name) {
                    return Some(x);
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, inner)) = &m.content {
                    if let Some(x) = find_type(inner, name) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

struct FreeSelf;
impl VisitMut for FreeSelf {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.is_ident("self") {
            p.segments[0].ident = syn::Ident::new("__self", p.segments[0].ident.span());
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

/// whole expressions of the source replaced by another expression (stand-ins for calls outside the verifier's reach)
struct PreSub(Vec<(String, syn::Expr)>);
impl VisitMut for PreSub {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let n = norm(&*e).replace(",)", ")").replace(",]", "]");
        if let Some((_, b)) = self.0.iter().find(|(a, _)| a.replace(",)", ")").replace(",]", "]") == n) {
            *e = b.clone();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
struct Clean;
impl VisitMut for Clean {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::parse_quote!(pub);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        let n = p.path.segments.len();
        syn::visit_mut::visit_expr_path_mut(self, p);
        if let Some(q) = &mut p.qself {
            q.position -= n - p.path.segments.len();
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        // `crate::a::b::X` -> `X`
        if p.segments.len() > 1 {
            let first = p.segments[0].ident.to_string();
            if first == "crate" || first == "super" {
                // keep the last segment, or Type::method when the second to last is a type name
                let n = p.segments.len();
                let keep = if p.segments[n - 2].ident.to_string().starts_with(|c: char| c.is_uppercase()) { 2 } else { 1 };
                let segs: Vec<_> = p.segments.iter().skip(n - keep).cloned().collect();
                p.segments = segs.into_iter().collect();
                p.leading_colon = None;
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

fn emit_type(files: &mut Files, t: &TypeEntry, rep: &mut Vec<String>) -> String {
    let f = files.get(&t.file);
    let mut it = find_type(&f.items, &t.name)
        .unwrap_or_else(|| die("ANCHOR", &format!("type {} not found in {}", t.name, t.file)));
    Clean.visit_item_mut(&mut it);
    let mut dropped = vec![];
    if let syn::Item::Struct(s) = &mut it {
        if let syn::Fields::Named(nf) = &mut s.fields {
            let kept: Vec<syn::Field> = nf
                .named
                .iter()
                .filter(|f| {
                    let n = f.ident.as_ref().unwrap().to_string();
                    let d = t.drop.contains(&n);
                    if d {
                        dropped.push(n);
                    }
                    !d
                })
                .cloned()
                .collect();
            nf.named = kept.into_iter().collect();
        }
        for f in s.fields.iter_mut() {
            f.vis = syn::parse_quote!(pub);
        }
    }
    if let syn::Item::Enum(e) = &mut it {
        for v in e.variants.iter_mut() {
            for f in v.fields.iter_mut() {
                f.vis = syn::Visibility::Inherited;
            }
        }
    }
    for d in &t.drop {
        if !dropped.contains(d) {
            // a field we wanted to drop is gone: harmless
        }
    }
    rep.push(format!("type {} :: {}{}", t.file, t.name, if dropped.is_empty() { String::new() } else { format!(" (fields dropped: {})", dropped.join(", ")) }));
    let mut out = String::new();
    if !t.derive.is_empty() {
        let _ = writeln!(out, "#[derive({})]", t.derive.join(", "));
    }
    for a in &t.attrs {
        let _ = writeln!(out, "{a}");
    }
    if t.text {
        text::Text { n: 0 }.visit_item_mut(&mut it);
    }
    let mut txt = rustfmt(&it.to_token_stream().to_string());
    for (a, b) in &t.subst {
        txt = txt.replace(a, b);
    }
    out.push_str(&txt);
    out
}

fn rustfmt(src: &str) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut ch = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140"])
        .env("RUSTUP_TOOLCHAIN", std::env::var("VX_FMT_TOOLCHAIN").unwrap_or_else(|_| "stable".into()))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| die("TOOL", &format!("rustfmt: {e}")));
    ch.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    if !o.status.success() {
        eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        eprintln!("{src}");
        die("TOOL", "rustfmt failed on desugared code");
    }
    String::from_utf8(o.stdout).unwrap()
}

/// Replace `-> __VxRet<T>` by `-> (name: T)`.
fn fix_ret(s: &str, name: &str) -> String {
    let Some(i) = s.find("__VxRet<") else { return s.to_string() };
    let start = i + "__VxRet<".len();
    let b = s.as_bytes();
    let mut depth = 1;
    let mut j = start;
    while j < b.len() && depth > 0 {
        match b[j] {
            b'<' => depth += 1,
            b'>' if b[j - 1] != b'-' => depth -= 1,
            _ => {}
        }
        j += 1;
    }
    let ty = s[start..j - 1].trim().trim_end_matches(',').to_string();
    format!("{}({}: {}){}", &s[..i], name, ty, &s[j..])
}

/// text of a marker line: `__vx!(key);`
fn splice(src: &str, e: &FnEntry, used: &mut BTreeMap<String, usize>, vac: bool) -> String {
    let lines: Vec<&str> = src.lines().collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("__vx!(\"") {
            let key = rest.split('"').next().unwrap().to_string();
            if key == "sig" || key.starts_with("lift ") || key.starts_with("closure ") {
                let speckey = if key == "sig" { "spec".to_string() } else { key.clone() };
                *used.entry(key.clone()).or_insert(0) += 1;
                // previous emitted line ends with '{' : move contract in front of it
                let prev = out.pop().unwrap_or_default();
                let p = prev.trim_end();
                let p = p.strip_suffix('{').unwrap_or_else(|| die("TOOL", "sig marker not after {"));
                out.push(p.to_string());
                if let Some(sp) = e.sec(&speckey) {
                    let sp = if key.starts_with("closure ") { sp.split_once('\n').map(|x| x.1).unwrap_or("") } else { sp };
                    out.push(sp.to_string());
                }
                out.push("{".to_string());
                if vac && !e.novac && !key.starts_with("closure ") {
                    out.push(format!("proof {{ if vx_nd({}) {{ assert(false); }} }} // VX-VACUITY entry", out.len()));
                }
                if let Some(sp) = e.sec("entry").filter(|_| key == "sig") {
                    *used.entry("entry".into()).or_insert(0) += 1;
                    out.push(sp.to_string());
                }
            } else if let Some(n) = key.strip_prefix("loop ") {
                let prev = out.pop().unwrap_or_default();
                let p = prev.trim_end();
                let p = p.strip_suffix('{').unwrap_or_else(|| die("TOOL", "loop marker not after {"));
                if let Some(sp) = e.sec(&format!("lattr {n}")) {
                    *used.entry(format!("lattr {n}")).or_insert(0) += 1;
                    out.push(sp.to_string());
                }
                out.push(p.to_string());
                let k = format!("loop {n}");
                match e.sec(&k) {
                    Some(sp) => {
                        *used.entry(k).or_insert(0) += 1;
                        out.push(sp.to_string());
                    }
                    None => {}
                }
                out.push("{".to_string());
                if vac && !e.novac {
                    out.push(format!("proof {{ if vx_nd({}) {{ assert(false); }} }} // VX-VACUITY loop {n}", out.len()));
                }
            } else if key == "panic" {
                let c = e.sec("panics").unwrap_or("false").trim();
                if c != "any" {
                    out.push(format!("proof {{ assert({c}); }} // VX-PANIC"));
                }
            } else if let Some(sp) = e.sec(&key) {
                *used.entry(key.clone()).or_insert(0) += 1;
                out.push(sp.to_string());
            }
        } else {
            out.push(l.to_string());
        }
        i += 1;
    }
    out.join("\n") + "\n"
}

/// finds `let NAME = |..| ..`; with a replacement, puts it in the closure's place
struct ConvClosure { name: String, with: Option<syn::Expr>, found: Option<syn::ExprClosure> }
impl VisitMut for ConvClosure {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        let id = match &l.pat {
            syn::Pat::Ident(i) => Some(i.ident.to_string()),
            _ => None,
        };
        if id.as_deref() == Some(self.name.as_str()) {
            if let Some(init) = &mut l.init {
                if let syn::Expr::Closure(c) = &*init.expr {
                    self.found = Some(c.clone());
                    if let Some(w) = &self.with {
                        init.expr = Box::new(w.clone());
                    }
                    return;
                }
            }
        }
        syn::visit_mut::visit_local_mut(self, l);
    }
}
/// names bound by patterns, uses of `return`/`?`, and all identifiers
#[derive(Default)]
struct Names { bound: Vec<String>, all: Vec<String>, ret: bool }
impl VisitMut for Names {
    fn visit_pat_ident_mut(&mut self, i: &mut syn::PatIdent) { self.bound.push(i.ident.to_string()); }
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) { self.all.push(i.to_string()); }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        self.ret |= matches!(e, syn::Expr::Return(_) | syn::Expr::Try(_));
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
struct Beta { name: String, sig: syn::Signature, body: syn::Block, n: usize }
struct BetaCall { f: String, pat: syn::Pat, body: syn::Expr }
impl VisitMut for BetaCall {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Call(c) = e {
            if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(&self.f)) && c.args.len() == 1 {
                let (p, a, b) = (&self.pat, &c.args[0], &self.body);
                *e = syn::parse_quote!({ let #p = #a; #b });
            }
        }
    }
}
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Call(c) = e else { return };
        let syn::Expr::Path(p) = &*c.func else { return };
        if p.path.segments.last().map(|s| s.ident.to_string()).as_deref() != Some(self.name.as_str()) || c.args.len() != 1 { return }
        let syn::Expr::Closure(cl) = &c.args[0] else { die("ANCHOR", "the argument to inline is no closure") };
        let f = match self.sig.inputs.first() {
            Some(syn::FnArg::Typed(t)) => match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => die("ANCHOR", "inline: parameter") },
            _ => die("ANCHOR", "inline: parameter"),
        };
        let (mut inner, mut outer, mut body) = (Names::default(), Names::default(), self.body.clone());
        inner.visit_expr_mut(&mut (*cl.body).clone());
        outer.visit_block_mut(&mut body.clone());
        if inner.ret || outer.ret || cl.inputs.len() != 1 || outer.bound.iter().any(|b| inner.all.contains(b)) { die("ANCHOR", "inline: captured name or early return") }
        BetaCall { f: f.clone(), pat: cl.inputs[0].clone(), body: (*cl.body).clone() }.visit_block_mut(&mut body);
        let mut left = Names::default();
        left.visit_block_mut(&mut body.clone());
        if left.all.contains(&f) { die("ANCHOR", "inline: the closure is used otherwise") }
        *e = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: body });
        self.n += 1;
    }
}
struct CapIdent { id: String, with: syn::Expr }
impl VisitMut for CapIdent {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            if p.path.is_ident(&self.id) {
                *e = self.with.clone();
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn emit_fn(files: &mut Files, e: &FnEntry, rep: &mut Vec<String>, vac: bool) -> String {
    let f = files.get(&e.file);
    let found = find_fn(&f.items, &e.path)
        .unwrap_or_else(|| die("ANCHOR", &format!("fn {} not found in {}", e.path.join("::"), e.file)));
    let (mut head, mut sig, mut block): (Option<syn::ItemImpl>, syn::Signature, syn::Block) = match found {
        Found::Free(f) => (None, f.sig, *f.block),
        Found::Method(im, f) => (Some(im), f.sig, f.block),
        Found::TraitDefault(_tr, f) => (None, f.sig, f.default.unwrap()),
    };
    if e.inherent {
        if let Some(h) = &mut head {
            h.trait_ = None;
        }
    }
    let srchash = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        norm(&block).hash(&mut h);
        norm(&sig).hash(&mut h);
        h.finish()
    };
    // token-level substitutions on the source (before desugaring)
    let mut ctx = desugar::Ctx::new(e);
    Clean.visit_signature_mut(&mut sig);
    Clean.visit_block_mut(&mut block);
    if let Some(h) = &mut head {
        Clean.visit_item_impl_mut(h);
    }
    sig.constness = None;
    if !e.pre.is_empty() {
        let l = e.pre.iter().map(|(a, b)| (a.chars().filter(|c| !c.is_whitespace()).collect::<String>(), syn::parse_str::<syn::Expr>(b).unwrap_or_else(|x| die("UNIT", &format!("pre {b}: {x}"))))).collect();
        PreSub(l).visit_block_mut(&mut block);
    }
    // `opt inline:G`: a call of the sibling function G with a closure written in place is replaced by G's body, the calls of its
    // argument by the closure's body (beta reduction; no `return`, no name of G's body may occur in the closure)
    for g in e.opts.iter().filter_map(|o| o.strip_prefix("inline:")) {
        let mut path = e.path.clone();
        *path.last_mut().unwrap() = g.to_string();
        let f = files.get(&e.file);
        let (gs, gb) = match find_fn(&f.items, &path).unwrap_or_else(|| die("ANCHOR", &format!("fn {} not found in {}", path.join("::"), e.file))) {
            Found::Free(f) => (f.sig, *f.block),
            Found::Method(_, f) => (f.sig, f.block),
            Found::TraitDefault(_, f) => (f.sig, f.default.unwrap()),
        };
        let mut b = Beta { name: g.to_string(), sig: gs, body: gb, n: 0 };
        b.visit_block_mut(&mut block);
        *ctx.rewrites.entry(format!("inline {g}")).or_insert(0) += b.n;
    }
    // `opt mono:F`: the instance of a generic function for one closure: the type parameter, its bounds and the arguments
    // of that type go (the calls of that argument are replaced by `pre` rules)
    for f in e.opts.iter().filter_map(|o| o.strip_prefix("mono:")) {
        let is = |t: &syn::Type| matches!(t, syn::Type::Path(p) if p.path.is_ident(f));
        sig.generics.params = std::mem::take(&mut sig.generics.params).into_iter().filter(|g| !matches!(g, syn::GenericParam::Type(t) if t.ident == f)).collect();
        if let Some(w) = &mut sig.generics.where_clause {
            w.predicates = std::mem::take(&mut w.predicates).into_iter().filter(|p| !matches!(p, syn::WherePredicate::Type(t) if is(&t.bounded_ty))).collect();
        }
        sig.inputs = std::mem::take(&mut sig.inputs).into_iter().filter(|a| !matches!(a, syn::FnArg::Typed(t) if is(&t.ty))).collect();
        *ctx.rewrites.entry(format!("mono {f}")).or_insert(0) += 1;
    }
    if e.opt("text") {
        let mut t = text::Text { n: 0 };
        t.visit_signature_mut(&mut sig);
        t.visit_block_mut(&mut block);
        if let Some(h) = &mut head {
            t.visit_item_impl_mut(h);
        }
        ctx.rewrites.insert("text".into(), t.n);
    }
    if e.opt("fx") {
        let mut fx = fx::Fx { n: 0 };
        fx.visit_signature_mut(&mut sig);
        fx.visit_block_mut(&mut block);
        if let Some(h) = &mut head {
            fx.visit_item_impl_mut(h);
        }
    }
    // `impl Trait` arguments stay; parameter patterns must be identifiers for Verus
    for inp in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(pt) = inp {
            if let syn::Pat::Ident(pi) = &mut *pt.pat {
                if pi.mutability.is_some() && !e.keepmut {
                    // `mut x: T` parameters: supported by Verus as is
                }
            }
        }
    }
    if e.opt("free") {
        // a method of a trait impl as a free function: `self` becomes the parameter `__self`
        if let Some(h) = head.take() {
            let st = (*h.self_ty).clone();
            for inp in sig.inputs.iter_mut() {
                if let syn::FnArg::Receiver(r) = inp {
                    *inp = match (&r.reference, &r.mutability) {
                        (None, _) => syn::parse_quote!(__self: #st),
                        (Some(_), None) => syn::parse_quote!(__self: &#st),
                        (Some(_), Some(_)) => syn::parse_quote!(__self: &mut #st),
                    };
                }
            }
            let mut g = h.generics.clone();
            g.params.extend(sig.generics.params.clone());
            if let Some(w) = &sig.generics.where_clause {
                g.make_where_clause().predicates.extend(w.predicates.clone());
            }
            sig.generics = g;
            FreeSelf.visit_block_mut(&mut block);
        }
    }
    // `mut self`: a local copy of the receiver
    let mut mutself = false;
    for inp in sig.inputs.iter_mut() {
        if let syn::FnArg::Receiver(r) = inp {
            if r.reference.is_none() && r.mutability.take().is_some() {
                mutself = true;
            }
        }
    }
    if mutself {
        FreeSelf.visit_block_mut(&mut block);
        block.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
        *ctx.rewrites.entry("mut-self".into()).or_insert(0) += 1;
    }
    for k in e.keys() {
        // closure conversion: `let mut NAME = |..| ..` becomes `let mut NAME = <record of the captured places>`
        if let Some(n) = k.strip_prefix("conv ") {
            let with: syn::Expr = syn::parse_str(e.sec(&k).unwrap()).unwrap_or_else(|x| die("UNIT", &format!("{k}: {x}")));
            let mut c = ConvClosure { name: n.to_string(), with: Some(with), found: None };
            c.visit_block_mut(&mut block);
            if c.found.is_none() {
                die("ANCHOR", &format!("{}: closure `{n}` not found", e.path.join("::")));
            }
            *ctx.rewrites.entry("closure-conversion".into()).or_insert(0) += 1;
        }
        // ... and its body the `call` method of that record: first line the impl head, then `captured=>place` items
        if let Some(n) = k.strip_prefix("fromclosure ") {
            let mut c = ConvClosure { name: n.to_string(), with: None, found: None };
            c.visit_block_mut(&mut block);
            let Some(cl) = c.found else { die("ANCHOR", &format!("{}: closure `{n}` not found", e.path.join("::"))) };
            let txt = e.sec(&k).unwrap();
            let (h, caps) = txt.split_once('\n').unwrap_or((txt, ""));
            let im: syn::ItemImpl = syn::parse_str(&format!("{h} {{}}")).unwrap_or_else(|x| die("UNIT", &format!("{k}: {x}")));
            let inputs = &cl.inputs;
            let out = &cl.output;
            sig = syn::parse_quote!(fn call(&mut self, #inputs) #out);
            let body = &cl.body;
            block = match &*cl.body { syn::Expr::Block(b) => b.block.clone(), _ => syn::parse_quote!({ #body }) };
            for it in caps.split_whitespace() {
                let (a, b) = it.split_once("=>").unwrap_or_else(|| die("UNIT", &format!("{k}: {it}")));
                let b: syn::Expr = syn::parse_str(b).unwrap_or_else(|x| die("UNIT", &format!("{k}: {x}")));
                let mut r = CapIdent { id: a.to_string(), with: b };
                r.visit_block_mut(&mut block);
            }
            head = Some(im);
            *ctx.rewrites.entry("closure-conversion".into()).or_insert(0) += 1;
        }
    }
    if let Some(n) = &e.rename {
        sig.ident = syn::Ident::new(n, sig.ident.span());
    }
    if let syn::ReturnType::Type(_, ty) = &sig.output {
        if e.sec("ret").is_some() {
            let ty = ty.clone();
            sig.output = syn::parse_quote!(-> __VxRet<#ty>);
        }
    }
    if e.ext.is_some() {
        block = syn::parse_quote!({ unimplemented!() });
    } else {
        ctx.run(&mut block);
    }
    for a in ctx.unused_anchors() {
        die("ANCHOR", &format!("{}: anchor `{}` not found", e.path.join("::"), a));
    }
    // sig marker
    block.stmts.insert(0, syn::parse_quote!(__vx!("sig");));
    let ftok = if head.is_some() && head.as_ref().unwrap().trait_.is_some() {
        quote!(#sig #block)
    } else {
        quote!(pub #sig #block)
    };
    let body = if let Some(h) = head {
        let (ig, wc) = (&h.generics, &h.generics.where_clause);
        let st = &h.self_ty;
        let tr = h.trait_.as_ref().map(|(_, p, f)| quote!(#p #f));
        quote!(impl #ig #tr #st #wc { #ftok })
    } else {
        ftok
    };
    let lifted = &ctx.lifted;
    let body = quote!(#(#lifted)* #body);
    let mut txt = rustfmt(&body.to_string());
    let mut used = BTreeMap::new();
    txt = splice(&txt, e, &mut used, vac);
    for k in e.keys() {
        let needs = k.starts_with("loop ") || k.starts_with("closure ") || k.starts_with("top ") || k.starts_with("head ") || k.starts_with("tail ") || k.starts_with("before ") || k.starts_with("after ") || k.starts_with("lift ");
        if needs && !used.contains_key(&k) {
            die("ANCHOR", &format!("{}: section `{}` has no place in the current source", e.path.join("::"), k));
        }
    }
    if let Some(n) = e.expect_loops {
        if n != ctx.loops {
            die("ANCHOR", &format!("{}: {} loops, unit expects {}", e.path.join("::"), ctx.loops, n));
        }
    }
    while txt.contains("__VxRet<") {
        txt = fix_ret(&txt, e.sec("ret").unwrap_or("r").trim());
    }
    // `for p in __vxitN(expr)` -> `for p in __itN: expr`
    while let Some(i) = txt.find("in __vxit") {
        let rest = &txt[i + 9..];
        let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        let open = i + 9 + d.len();
        let mut depth = 0;
        let mut close = open;
        for (j, ch) in txt[open..].char_indices() {
            match ch { '(' => depth += 1, ')' => { depth -= 1; if depth == 0 { close = open + j; break; } } _ => {} }
        }
        let inner = txt[open + 1..close].to_string();
        txt = format!("{}in __it{}: {}{}", &txt[..i], d, inner, &txt[close + 1..]);
    }
    for (a, b) in &e.subst {
        if !txt.contains(a.as_str()) && !e.subst_opt {
            // a substitution that no longer applies is not an error: the text simply has no such token
        }
        txt = txt.replace(a, b);
    }
    let mut out = String::new();
    if e.ext.is_some() {
        if let Some(i) = txt.find("pub fn ").or_else(|| txt.find("fn ")) {
            txt.insert_str(i, "#[verifier::external_body]\n");
        }
    }
    if let Some(a) = e.sec("attrs") {
        // attributes go on the fn; for impl methods they must go inside
        if let Some(i) = txt.find("pub fn ").or_else(|| txt.find("fn ")) {
            txt.insert_str(i, &format!("{}\n", a.trim()));
        }
    }
    // several methods of one trait impl: `opt implopen` leaves the impl block open, `opt implcont` continues it
    if let Some(g) = e.sec("implhead") {
        let i = txt.find('{').unwrap();
        txt.insert_str(i + 1, &format!("\n{g}\n"));
    }
    if e.opt("implopen") {
        let i = txt.rfind('}').unwrap();
        txt.truncate(i);
    }
    if e.opt("implcont") {
        let i = txt.find('{').unwrap();
        txt = txt[i + 1..].to_string();
    }
    if let Some(u) = &e.ext {
        out.push_str(&format!("// VX-USES {u}\n"));
        out.push_str(&txt);
        rep.push(format!("uses {} :: {} contract proved in {u} src={:016x}", e.file, e.path.join("::"), srchash));
        return out;
    }
    out.push_str(&format!("// VX-FN {} :: {} src={:016x}\n", e.file, e.path.join("::"), srchash));
    out.push_str(&txt);
    out.push_str("// VX-END\n");
    rep.push(format!(
        "fn {} :: {} src={:016x} loops={} rewrites=[{}]{}",
        e.file,
        e.path.join("::"),
        srchash,
        ctx.loops,
        ctx.rewrites.iter().map(|(k, v)| format!("{k}x{v}")).collect::<Vec<_>>().join(" "),
        if e.subst.is_empty() && e.pre.is_empty() { String::new() } else { format!(" subst={:?}{}", e.subst, if e.pre.is_empty() { String::new() } else { format!(" pre={:?}", e.pre) }) }
    ));
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx REPO UNIT OUT.rs REPORT.txt [--vacuity]");
        std::process::exit(2);
    }
    let vac = args.iter().any(|a| a == "--vacuity");
    let mut files = Files { root: args[1].clone(), cache: HashMap::new() };
    let entries = unit::parse(Path::new(&args[2]));
    let mut out = String::new();
    let mut rep = vec![];
    out.push_str("// GENERATED by /verif/vx from the project's current source - do not edit\n");
    out.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, non_snake_case, unused_braces, unreachable_code)]\n");
    out.push_str("use vstd::prelude::*;\nverus! {\n");
    for e in &entries {
        match e {
            Entry::Raw(s) => out.push_str(s),
            Entry::Type(t) => out.push_str(&emit_type(&mut files, t, &mut rep)),
            Entry::Fn(f) => out.push_str(&emit_fn(&mut files, f, &mut rep, vac)),
        }
        out.push('\n');
    }
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&args[3], out).unwrap();
    std::fs::write(&args[4], rep.join("\n") + "\n").unwrap();
}
