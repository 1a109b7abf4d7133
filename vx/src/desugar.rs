//! The fixed desugarings.  Each is a local, semantics-preserving expansion of one Rust construct
//! that the verifier's front end does not take (iterator chains, panicking macros, Option
//! combinators with closures).  Every application is counted and reported.
use crate::{die, norm};
use crate::unit::FnEntry;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct Ctx<'a> {
    e: &'a FnEntry,
    pub loops: usize,
    closures: usize,
    pending: Vec<Stmt>,
    tmp: usize,
    pub rewrites: BTreeMap<String, usize>,
    anchors: Vec<(String, String, usize, String)>,
    seen: Vec<usize>,
    hit: Vec<bool>,
    loop_stack: Vec<usize>,
    pub lifted: Vec<TokenStream>,
    exit: bool,
}

#[derive(Clone)]
enum It {
    Range(Expr, Expr),
    RangeIncl(Expr, Expr),
    Ref(Expr),
    Mut(Expr),
    Val(Expr),
    Copied(Box<It>),
    Cloned(Box<It>),
    Enum(Box<It>),
    Rev(Box<It>),
    Zip(Box<It>, Box<It>, bool),
    Take(Box<It>, Expr),
    Skip(Box<It>, Expr),
    Map(Box<It>, Pat, Expr),
    Chunks(Expr, Expr, bool, Option<syn::Ident>),
}

enum Stage {
    Filter(Pat, Expr),
    FilterMap(Pat, Expr),
    Map(Pat, Expr),
}

struct Chain {
    it: It,
    stages: Vec<Stage>,
}

struct InlineIdent {
    id: syn::Ident,
    with: Expr,
    n: usize,
}
impl VisitMut for InlineIdent {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.id) {
                let w = &self.with;
                *e = parse_quote!((#w));
                self.n += 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// uses of a name inside loops or closures
struct LoopUse {
    id: syn::Ident,
    inside: usize,
    n: usize,
}
impl VisitMut for LoopUse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.id) && self.inside > 0 {
                self.n += 1;
            }
        }
        let deep = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_));
        self.inside += deep as usize;
        visit_mut::visit_expr_mut(self, e);
        self.inside -= deep as usize;
    }
}

/// `Ordering::X` or `Some(Ordering::X)` as a pattern
fn ordering_lit(e: &Expr) -> Option<Pat> {
    match e {
        Expr::Path(p) => {
            let n = p.path.segments.len();
            let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if n >= 2 && seg[n - 2] == "Ordering" && ["Less", "Equal", "Greater"].contains(&seg[n - 1].as_str()) {
                let id = &p.path.segments[n - 1].ident;
                return Some(parse_quote!(Ordering::#id));
            }
            None
        }
        Expr::Call(c) if norm(&c.func) == "Some" && c.args.len() == 1 => {
            let i = ordering_lit(&c.args[0])?;
            Some(parse_quote!(Some(#i)))
        }
        Expr::Paren(p) => ordering_lit(&p.expr),
        _ => None,
    }
}
fn norm_path(e: &Expr) -> String {
    crate::norm(e)
}
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
fn closure0(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = e {
        if c.inputs.is_empty() {
            return Some((*c.body).clone());
        }
    }
    None
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Reference(r) => is_place(&r.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Index(i) => is_place(&i.expr),
        _ => false,
    }
}

impl<'a> Ctx<'a> {
    pub fn new(e: &'a FnEntry) -> Self {
        let anchors = e.anchors();
        Ctx {
            e,
            loops: 0,
            closures: 0,
            pending: vec![],
            tmp: 0,
            rewrites: BTreeMap::new(),
            seen: vec![0; anchors.len()],
            hit: vec![false; anchors.len()],
            anchors,
            loop_stack: vec![],
            lifted: vec![],
            exit: e.sec("exit").is_some(),
        }
    }
    fn count(&mut self, k: &str) {
        *self.rewrites.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn unused_anchors(&self) -> Vec<String> {
        self.anchors.iter().zip(&self.hit).filter(|(_, h)| !**h).map(|(a, _)| a.3.clone()).collect()
    }
    pub fn run(&mut self, b: &mut syn::Block) {
        if self.exit {
            // name the returned value so that closing proof steps can talk about it
            if let Some(Stmt::Expr(ex, None)) = b.stmts.last().cloned() {
                b.stmts.pop();
                b.stmts.push(parse_quote!(let __ret = #ex;));
                b.stmts.push(parse_quote!(__vx!("exit");));
                b.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
            } else {
                b.stmts.push(parse_quote!(__vx!("exit");));
            }
        }
        self.visit_block_mut(b);
    }
    fn mark(&self, key: &str) -> Stmt {
        let lit = syn::LitStr::new(key, Span::call_site());
        parse_quote!(__vx!(#lit);)
    }
    fn panic_expr(&mut self) -> Expr {
        self.count("panic-site");
        parse_quote!({ __vx!("panic"); vx_panic() })
    }

    // ---------------------------------------------------------------- iterators
    fn parse_it(&self, e: &Expr, top: bool) -> Option<Chain> {
        match e {
            Expr::Paren(p) => self.parse_it(&p.expr, top),
            Expr::Range(r) => {
                let a = r.start.as_ref()?;
                let b = r.end.as_ref()?;
                let it = match r.limits {
                    syn::RangeLimits::HalfOpen(_) => It::Range((**a).clone(), (**b).clone()),
                    syn::RangeLimits::Closed(_) => It::RangeIncl((**a).clone(), (**b).clone()),
                };
                Some(Chain { it, stages: vec![] })
            }
            Expr::Reference(r) if top => {
                let x = (*r.expr).clone();
                Some(Chain { it: if r.mutability.is_some() { It::Mut(x) } else { It::Ref(x) }, stages: vec![] })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" if m.args.is_empty() => {
                        return Some(Chain { it: It::Ref((*m.receiver).clone()), stages: vec![] })
                    }
                    "iter_mut" if m.args.is_empty() => {
                        return Some(Chain { it: It::Mut((*m.receiver).clone()), stages: vec![] })
                    }
                    "into_iter" if m.args.is_empty() => {
                        if let Some(c) = self.parse_it(&m.receiver, false) {
                            return Some(c);
                        }
                        return Some(Chain { it: It::Val((*m.receiver).clone()), stages: vec![] });
                    }
                    "chunks" | "chunks_mut" | "chunks_exact" | "chunks_exact_mut" => {
                        return Some(Chain {
                            it: It::Chunks((*m.receiver).clone(), m.args[0].clone(), name.contains("mut"), None),
                            stages: vec![],
                        })
                    }
                    _ => {}
                }
                let mut c = self.parse_it(&m.receiver, false)?;
                let simple = c.stages.is_empty();
                match name.as_str() {
                    "copied" if simple => c.it = It::Copied(Box::new(c.it)),
                    "cloned" if simple => c.it = It::Cloned(Box::new(c.it)),
                    "enumerate" if simple => c.it = It::Enum(Box::new(c.it)),
                    "rev" if simple => c.it = It::Rev(Box::new(c.it)),
                    "take" if simple => c.it = It::Take(Box::new(c.it), m.args[0].clone()),
                    "skip" if simple => c.it = It::Skip(Box::new(c.it), m.args[0].clone()),
                    "zip" | "zip_eq" if simple => {
                        let a = &m.args[0];
                        let o = match self.parse_it(a, true) {
                            Some(c2) if c2.stages.is_empty() => c2.it,
                            Some(_) => return None,
                            None => It::Ref(a.clone()),
                        };
                        c.it = It::Zip(Box::new(c.it), Box::new(o), name == "zip_eq")
                    }
                    "map" => {
                        let (p, b) = match closure1(&m.args[0]) {
                            Some(x) => x,
                            None => {
                                let f = &m.args[0];
                                (parse_quote!(__m), parse_quote!((#f)(__m)))
                            }
                        };
                        if simple {
                            c.it = It::Map(Box::new(c.it), p, b)
                        } else {
                            c.stages.push(Stage::Map(p, b))
                        }
                    }
                    "filter" => {
                        let (p, b) = closure1(&m.args[0])?;
                        c.stages.push(Stage::Filter(p, b))
                    }
                    "filter_map" => {
                        let (p, b) = closure1(&m.args[0])?;
                        c.stages.push(Stage::FilterMap(p, b))
                    }
                    // an iterator of (references to) options: only the present values
                    "flatten" => c.stages.push(Stage::FilterMap(parse_quote!(__e), parse_quote!(__e))),
                    "by_ref" => {}
                    _ => return None,
                }
                Some(c)
            }
            // a literal array: its elements in order, copied (an element type that is not Copy is rejected by rustc)
            Expr::Array(_) if top => Some(Chain { it: It::Copied(Box::new(It::Ref(e.clone()))), stages: vec![] }),
            Expr::Path(_) | Expr::Field(_) if top => {
                let n = norm(e);
                let it = if self.e.opt(&format!("owned:{n}")) {
                    It::Val(e.clone())
                } else if self.e.opt(&format!("mutref:{n}")) {
                    It::Mut(e.clone())
                } else {
                    It::Ref(e.clone())
                };
                Some(Chain { it, stages: vec![] })
            }
            _ => None,
        }
    }

    /// bind non-place sources to temporaries so they are evaluated once
    fn hoist(&mut self, it: &mut It, pre: &mut Vec<Stmt>) {
        if let It::Chunks(_, _, _, l @ None) = it {
            *l = Some(format_ident!("__cl{}", self.tmp));
        }
        match it {
            It::Range(a, b) | It::RangeIncl(a, b) => {
                for x in [a, b] {
                    if !matches!(x, Expr::Lit(_)) && !matches!(x, Expr::Path(_)) {
                        let id = format_ident!("__h{}", self.tmp);
                        self.tmp += 1;
                        let mut old = x.clone();
                        self.visit_expr_mut(&mut old);
                        pre.push(parse_quote!(let #id = #old;));
                        *x = parse_quote!(#id);
                    }
                }
            }
            It::Chunks(_, c, _, _) if !matches!(c, Expr::Lit(_)) && !matches!(c, Expr::Path(_)) => {
                let id = format_ident!("__h{}", self.tmp);
                self.tmp += 1;
                let mut old = c.clone();
                self.visit_expr_mut(&mut old);
                pre.push(parse_quote!(let #id: usize = #old;));
                *c = parse_quote!(#id);
                self.hoist(it, pre);
            }
            It::Ref(x) | It::Mut(x) | It::Val(x) | It::Chunks(x, _, _, _) => {
                if !is_place(x) {
                    let id = format_ident!("__h{}", self.tmp);
                    self.tmp += 1;
                    let mut old = x.clone();
                        self.visit_expr_mut(&mut old);
                    pre.push(parse_quote!(let #id = #old;));
                    *x = parse_quote!(#id);
                }
            }
            It::Copied(i) | It::Cloned(i) | It::Enum(i) | It::Rev(i) => self.hoist(i, pre),
            It::Map(i, _, b) => {
                self.hoist(i, pre);
                self.visit_expr_mut(b);
            }
            It::Take(i, n) | It::Skip(i, n) => {
                self.hoist(i, pre);
                if !matches!(n, Expr::Lit(_)) && !matches!(n, Expr::Path(_)) {
                    let id = format_ident!("__h{}", self.tmp);
                    self.tmp += 1;
                    let mut old = n.clone();
                    self.visit_expr_mut(&mut old);
                    pre.push(parse_quote!(let #id = #old;));
                    *n = parse_quote!(#id);
                }
            }
            It::Zip(a, b, _) => {
                self.hoist(a, pre);
                self.hoist(b, pre);
            }
        }
    }

    fn len(&mut self, it: &It, pre: &mut Vec<Stmt>) -> TokenStream {
        match it {
            It::Range(a, b) => quote!((if #b > #a { #b - #a } else { 0 })),
            It::RangeIncl(a, b) => quote!((if #b >= #a { #b - #a + 1 } else { 0 })),
            It::Ref(x) | It::Mut(x) | It::Val(x) => quote!(#x.len()),
            It::Chunks(x, n, _, l) => {
                let p = self.panic_expr();
                pre.push(parse_quote!(if !(#n > 0) { #p }));
                // the length of a slice does not change while it is being iterated
                pre.push(parse_quote!(let #l: usize = #x.len();));
                quote!(vx_nchunks(#l, #n))
            }
            It::Copied(i) | It::Cloned(i) | It::Enum(i) | It::Rev(i) | It::Map(i, _, _) => self.len(i, pre),
            It::Take(i, n) => {
                let l = self.len(i, pre);
                quote!(vx_min_usize(#l, #n))
            }
            It::Skip(i, n) => {
                let l = self.len(i, pre);
                quote!(vx_sub_or_zero(#l, #n))
            }
            It::Zip(a, b, eq) => {
                let la = self.len(a, pre);
                let lb = self.len(b, pre);
                if *eq {
                    let p = self.panic_expr();
                    pre.push(parse_quote!(if !(#la == #lb) { #p }));
                    la
                } else {
                    quote!(vx_min_usize(#la, #lb))
                }
            }
        }
    }

    fn elem(&mut self, it: &It, k: TokenStream, n: TokenStream) -> TokenStream {
        match it {
            It::Range(a, _) | It::RangeIncl(a, _) => {
                if norm(a) == "0" {
                    k
                } else {
                    quote!((#a + #k))
                }
            }
            It::Ref(x) => quote!(&#x[#k]),
            It::Mut(x) => quote!(&mut #x[#k]),
            It::Val(x) => quote!(#x[#k]),
            It::Chunks(x, c, m, l) => {
                if *m && self.e.opt("vecchunks") {
                    quote!(vx_range_mut(&mut #x, vx_chunk_lo(#l, #c, #k), vx_chunk_hi(#l, #c, #k)))
                } else if *m {
                    quote!(&mut #x[vx_chunk_lo(#l, #c, #k)..vx_chunk_hi(#l, #c, #k)])
                } else {
                    quote!(&#x[vx_chunk_lo(#l, #c, #k)..vx_chunk_hi(#l, #c, #k)])
                }
            }
            It::Copied(i) => match &**i {
                It::Ref(x) => quote!(#x[#k]),
                _ => {
                    let e = self.elem(i, k, n);
                    quote!(*(#e))
                }
            },
            It::Cloned(i) => match &**i {
                It::Ref(x) => quote!(#x[#k].clone()),
                _ => {
                    let e = self.elem(i, k, n);
                    quote!((#e).clone())
                }
            },
            It::Enum(i) => {
                let e = self.elem(i, k.clone(), n);
                quote!((#k, #e))
            }
            It::Rev(i) => self.elem(i, quote!((#n - 1 - #k)), n.clone()),
            It::Zip(a, b, _) => {
                let ea = self.elem(a, k.clone(), n.clone());
                let eb = self.elem(b, k, n);
                quote!((#ea, #eb))
            }
            It::Take(i, _) => self.elem(i, k, n),
            It::Skip(i, s) => self.elem(i, quote!((#k + #s)), n),
            It::Map(i, p, b) => {
                let e = self.elem(i, k, n);
                { let mut u: Vec<Stmt> = vec![]; bind(p, &e.to_token_stream(), &mut u); quote!({ #(#u)* #b }) }
            }
        }
    }

    /// Expand iteration over `chain`; `body` gets the statements for one element bound to `pat`.
    fn expand(&mut self, mut chain: Chain, pat: Pat, mut body: Vec<Stmt>, label: Option<syn::Label>) -> Vec<Stmt> {
        let id = self.loops;
        self.loops += 1;
        self.count("iter-loop");
        let k = format_ident!("__k{}", id);
        let nn = format_ident!("__n{}", id);
        let mut out: Vec<Stmt> = vec![];
        self.hoist(&mut chain.it, &mut out);

        // body statements: nested visit with this loop on the stack
        self.loop_stack.push(id);
        let mut blk: syn::Block = parse_quote!({});
        blk.stmts = std::mem::take(&mut body);
        self.visit_block_mut(&mut blk);
        let mut inner = blk.stmts;
        // element binding through the stages, innermost last
        let has_stage = !chain.stages.is_empty();
        let final_pat = pat;
        if has_stage {
            // bind: __e = elem; stage*; let pat = __e; body
            let mut acc: Vec<Stmt> = vec![parse_quote!(let #final_pat = __e;)];
            acc.append(&mut inner);
            for st in chain.stages.iter().rev() {
                acc = match st {
                    Stage::Map(p, b) => {
                        let mut b = b.clone();
                        self.visit_expr_mut(&mut b);
                        let u = unpack(p, quote!(__e));
                        let mut v: Vec<Stmt> = vec![parse_quote!(let __e = { #(#u)* #b };)];
                        v.append(&mut acc);
                        v
                    }
                    Stage::Filter(p, c) => {
                        let mut c = c.clone();
                        self.visit_expr_mut(&mut c);
                        vec![parse_quote!(if { let #p = &__e; #c } { #(#acc)* })]
                    }
                    Stage::FilterMap(p, b) => {
                        let mut b = b.clone();
                        self.visit_expr_mut(&mut b);
                        let u = unpack(p, quote!(__e));
                        vec![Stmt::Expr(
                            parse_quote!(match { #(#u)* #b } { Some(__e) => { #(#acc)* } None => {} }),
                            None,
                        )]
                    }
                };
            }
            inner = acc;
        }
        self.loop_stack.pop();
        let bind_pat: Pat = if has_stage { parse_quote!(__e) } else { final_pat };
        let m_loop = self.mark(&format!("loop {id}"));
        let m_top = self.mark(&format!("top {id}"));
        let m_head = self.mark(&format!("head {id}"));
        let m_tail = self.mark(&format!("tail {id}"));
        let m_before = self.mark(&format!("before {id}"));
        let m_after = self.mark(&format!("after {id}"));
        match &chain.it {
            It::Range(a, b) => {
                out.push(parse_quote!(let mut #k = #a;));
                out.push(parse_quote!(let #nn = #b;));
                out.push(m_before);
                out.push(Stmt::Expr(
                    parse_quote!(#label while #k < #nn { #m_loop #m_top let #bind_pat = #k; #k = #k + 1; #m_head #(#inner)* #m_tail }),
                    None,
                ));
            }
            It::RangeIncl(a, b) => {
                out.push(parse_quote!(let mut #k = #a;));
                out.push(parse_quote!(let #nn = #b;));
                out.push(m_before);
                out.push(Stmt::Expr(
                    parse_quote!(#label while #k <= #nn { #m_loop #m_top let #bind_pat = #k; #k = #k + 1; #m_head #(#inner)* #m_tail }),
                    None,
                ));
            }
            It::Rev(r) if matches!(**r, It::Range(..)) => {
                if let It::Range(a, b) = &**r {
                    out.push(parse_quote!(let mut #k = #b;));
                    out.push(parse_quote!(let #nn = #a;));
                    out.push(m_before);
                    out.push(Stmt::Expr(
                        parse_quote!(#label while #k > #nn { #m_loop #m_top #k = #k - 1; let #bind_pat = #k; #m_head #(#inner)* #m_tail }),
                        None,
                    ));
                }
            }
            It::Rev(r) if matches!(**r, It::RangeIncl(..)) => {
                if let It::RangeIncl(a, b) = &**r {
                    out.push(parse_quote!(let mut #k = #b + 1;));
                    out.push(parse_quote!(let #nn = #a;));
                    out.push(m_before);
                    out.push(Stmt::Expr(
                        parse_quote!(#label while #k > #nn { #m_loop #m_top #k = #k - 1; let #bind_pat = #k; #m_head #(#inner)* #m_tail }),
                        None,
                    ));
                }
            }
            it => {
                let it = it.clone();
                let l = self.len(&it, &mut out);
                let el = self.elem(&it, quote!(#k), quote!(#nn));
                out.push(parse_quote!(let mut #k: usize = 0;));
                out.push(parse_quote!(let #nn: usize = #l;));
                out.push(m_before);
                // `let (i, n) = (k, &x[k])` is expanded to two bindings
                let mut binds: Vec<Stmt> = vec![];
                bind(&bind_pat, &el, &mut binds);
                out.push(Stmt::Expr(
                    parse_quote!(#label while #k < #nn { #m_loop #m_top #(#binds)* #k = #k + 1; #m_head #(#inner)* #m_tail }),
                    None,
                ));
            }
        }
        out.push(m_after);
        out
    }

    /// an iterator the verifier's library specifies itself (HashMap views): the loop is kept, its iterator gets a name
    fn native_for(&mut self, f: syn::ExprForLoop) -> Vec<Stmt> {
        let id = self.loops;
        self.loops += 1;
        self.count("native-for");
        let mut ex = (*f.expr).clone();
        self.visit_expr_mut(&mut ex);
        self.loop_stack.push(id);
        let mut blk = f.body.clone();
        self.visit_block_mut(&mut blk);
        self.loop_stack.pop();
        let mut inner = blk.stmts;
        let (mut pat, label) = (f.pat, f.label);
        if let Pat::Reference(r) = &*pat {
            // `for &p in ..`
            let p = &r.pat;
            let e = format_ident!("__e{}", id);
            inner.insert(0, parse_quote!(let #p = *#e;));
            pat = Box::new(parse_quote!(#e));
        }
        let named = format_ident!("__vxit{}", id);
        let (m_loop, m_head, m_tail) = (self.mark(&format!("loop {id}")), self.mark(&format!("head {id}")), self.mark(&format!("tail {id}")));
        let (mb, ma) = (self.mark(&format!("before {id}")), self.mark(&format!("after {id}")));
        vec![
            mb,
            Stmt::Expr(parse_quote!(#label for #pat in #named(#ex) { #m_loop #m_head #(#inner)* #m_tail }), None),
            ma,
        ]
    }

    fn chain_sink(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let sinks = ["collect", "count", "sum", "any", "all", "max", "min", "position", "find", "for_each", "fold", "last", "min_by_key", "max_by_key", "rposition"];
        if !sinks.contains(&name.as_str()) {
            return None;
        }
        if matches!(name.as_str(), "max" | "min") && !m.args.is_empty() {
            return None;
        }
        let chain = self.parse_it(&m.receiver, false)?;
        let id = self.loops; // the id expand() will use
        let acc = format_ident!("__acc{}", id);
        self.count(&format!("iter-{name}"));
        let arg = m.args.first().cloned();
        let (init, pat, body, fin): (Vec<Stmt>, Pat, Vec<Stmt>, Expr) = match name.as_str() {
            "collect" => (
                vec![parse_quote!(let mut #acc = Vec::new();)],
                parse_quote!(__v),
                vec![parse_quote!(#acc.push(__v);)],
                parse_quote!(#acc),
            ),
            "count" => (
                vec![parse_quote!(let mut #acc: usize = 0;)],
                parse_quote!(_),
                vec![parse_quote!(#acc = #acc + 1;)],
                parse_quote!(#acc),
            ),
            "sum" => {
                let init: Vec<Stmt> = match &m.turbofish {
                    _ if self.e.opt("fx") && !self.e.opt("intsum") && m.turbofish.as_ref().map_or(true, |t| norm(t).contains("Fx")) => vec![parse_quote!(let mut #acc: Fx = Fx::lit(0, 1);)],
                    Some(t) => {
                        let ty = &t.args[0];
                        vec![parse_quote!(let mut #acc: #ty = 0;)]
                    }
                    None => vec![parse_quote!(let mut #acc = 0;)],
                };
                let deref = matches!(chain.it, It::Ref(_)) && chain.stages.is_empty();
                let add: Stmt = if deref { parse_quote!(#acc = #acc + *__v;) } else { parse_quote!(#acc = #acc + __v;) };
                (init, parse_quote!(__v), vec![add], parse_quote!(#acc))
            }
            "any" => {
                let (p, c) = closure1(arg.as_ref()?)?;
                (
                    vec![parse_quote!(let mut #acc = false;)],
                    p,
                    vec![parse_quote!(if #c { #acc = true; break; })],
                    parse_quote!(#acc),
                )
            }
            "all" => {
                let (p, c) = closure1(arg.as_ref()?)?;
                (
                    vec![parse_quote!(let mut #acc = true;)],
                    p,
                    vec![parse_quote!(if !(#c) { #acc = false; break; })],
                    parse_quote!(#acc),
                )
            }
            "position" => {
                let (p, c) = closure1(arg.as_ref()?)?;
                let ix = format_ident!("__ix{}", id);
                (
                    vec![parse_quote!(let mut #acc: Option<usize> = None;), parse_quote!(let mut #ix: usize = 0;)],
                    p,
                    vec![parse_quote!(if #c { #acc = Some(#ix); break; }), parse_quote!(#ix = #ix + 1;)],
                    parse_quote!(#acc),
                )
            }
            "rposition" => {
                let (p, c) = closure1(arg.as_ref()?)?;
                if !chain.stages.is_empty() {
                    return None;
                }
                let ix = format_ident!("__ix{}", id);
                let mut pre: Vec<Stmt> = vec![];
                let mut it = chain.it.clone();
                self.hoist(&mut it, &mut pre);
                let l = self.len(&it, &mut pre);
                pre.push(parse_quote!(let mut #acc: Option<usize> = None;));
                pre.push(parse_quote!(let mut #ix: usize = #l;));
                let body = self.expand(
                    Chain { it: It::Rev(Box::new(it)), stages: vec![] },
                    p,
                    vec![parse_quote!(#ix = #ix - 1;), parse_quote!(if #c { #acc = Some(#ix); break; })],
                    None,
                );
                return Some(parse_quote!({ #(#pre)* #(#body)* #acc }));
            }
            "find" => {
                let (p, c) = closure1(arg.as_ref()?)?;
                (
                    vec![parse_quote!(let mut #acc = None;)],
                    parse_quote!(__v),
                    vec![parse_quote!(if { let #p = &__v; #c } { #acc = Some(__v); break; })],
                    parse_quote!(#acc),
                )
            }
            "max" | "min" => {
                let cmp: TokenStream = if name == "max" { quote!(__v >= __m) } else { quote!(__v < __m) };
                (
                    vec![parse_quote!(let mut #acc = None;)],
                    parse_quote!(__v),
                    vec![parse_quote!(#acc = match #acc { None => Some(__v), Some(__m) => if #cmp { Some(__v) } else { Some(__m) } };)],
                    parse_quote!(#acc),
                )
            }
            // the first element with the least key / the last element with the greatest key
            "min_by_key" | "max_by_key" => {
                let (p, c) = closure1(arg.as_ref()?)?;
                let bk = format_ident!("__key{}", id);
                let cmp: TokenStream = if name == "max_by_key" { quote!(__key >= __old) } else { quote!(__key < __old) };
                (
                    vec![parse_quote!(let mut #acc = None;), parse_quote!(let mut #bk = None;)],
                    parse_quote!(__v),
                    vec![
                        parse_quote!(let __key = { let #p = &__v; #c };),
                        parse_quote!(let __better = match #bk { None => true, Some(__old) => #cmp };),
                        parse_quote!(if __better { #acc = Some(__v); #bk = Some(__key); }),
                    ],
                    parse_quote!(#acc),
                )
            }
            "last" => (
                vec![parse_quote!(let mut #acc = None;)],
                parse_quote!(__v),
                vec![parse_quote!(#acc = Some(__v);)],
                parse_quote!(#acc),
            ),
            "for_each" => {
                let (p, c) = closure1(arg.as_ref()?)?;
                (vec![], p, vec![Stmt::Expr(c, Some(Default::default()))], parse_quote!(()))
            }
            "fold" => {
                if let Some(f @ Expr::Path(_)) = m.args.iter().nth(1) {
                    let init = arg?;
                    let body = self.expand(
                        chain,
                        parse_quote!(__v),
                        vec![parse_quote!(#acc = #f(#acc, __v);)],
                        None,
                    );
                    return Some(parse_quote!({ let mut #acc = #init; #(#body)* #acc }));
                }
                let Some(Expr::Closure(c)) = m.args.iter().nth(1) else { return None };
                let init = arg?;
                let pa = c.inputs[0].clone();
                let pv = match &c.inputs[1] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = &c.body;
                (
                    vec![parse_quote!(let mut #acc = #init;)],
                    pv,
                    vec![parse_quote!(#acc = { let #pa = #acc; #b };)],
                    parse_quote!(#acc),
                )
            }
            _ => return None,
        };
        let body = self.expand(chain, pat, body, None);
        Some(parse_quote!({ #(#init)* #(#body)* #fin }))
    }

    fn option_method(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("unwrap", 0) | ("expect", 1) => {
                let p = self.panic_expr();
                self.count("option-unwrap");
                if self.e.opt("results") {
                    Some(parse_quote!((match #r { Ok(__v) => __v, Err(_) => #p })))
                } else {
                    Some(parse_quote!((match #r { Some(__v) => __v, None => #p })))
                }
            }
            ("unwrap_or", 1) => {
                let d = &m.args[0];
                self.count("option-unwrap_or");
                Some(parse_quote!((match #r { Some(__v) => __v, None => #d })))
            }
            ("or", 1) => {
                let d = &m.args[0];
                self.count("option-or");
                Some(parse_quote!({ let __o = #d; match #r { Some(__v) => Some(__v), None => __o } }))
            }
            ("try_into", 0) => {
                self.count("try-into");
                Some(parse_quote!(VxTry::vx_try(#r)))
            }
            // `x.drain(a..).collect()` takes the tail off
            ("collect", 0) => {
                let Expr::MethodCall(d) = &*m.receiver else { return None };
                if d.method != "drain" || d.args.len() != 1 {
                    return None;
                }
                let Expr::Range(syn::ExprRange { start: Some(lo), end: None, .. }) = &d.args[0] else { return None };
                let x = &d.receiver;
                self.count("drain-tail");
                Some(parse_quote!(#x.split_off(#lo)))
            }
            // `x.splice(a..=b, v);` with the removed elements dropped
            ("splice", 2) => {
                let (_, lo, hi) = sub_range(&{ let g = &m.args[0]; parse_quote!(__x[#g]) })?;
                let v = &m.args[1];
                self.count("splice");
                Some(parse_quote!(vx_splice(&mut #r, #lo, #hi, #v)))
            }
            ("extend_from_slice", 1) if self.e.opt("extslice") => {
                let a = &m.args[0];
                let inner = match a { Expr::Reference(x) => (*x.expr).clone(), x => x.clone() };
                self.count("extend-slice");
                Some(match sub_range(&inner) {
                    Some((x, lo, hi)) => parse_quote!(vx_extend(&mut #r, &#x, #lo, #hi)),
                    None => parse_quote!(vx_extend(&mut #r, #a, 0, #inner.len())),
                })
            }
            ("unwrap_or_else", 1) => {
                let d = match closure0(&m.args[0]) {
                    Some(d) => d,
                    None => match closure1(&m.args[0]) {
                        Some((Pat::Wild(_), d)) => d,
                        _ => return None,
                    },
                };
                self.count("option-unwrap_or_else");
                Some(parse_quote!((match #r { Some(__v) => __v, None => #d })))
            }
            ("map", 1) => {
                let (p, b) = closure1(&m.args[0])?;
                self.count("option-map");
                Some(parse_quote!((match #r { Some(#p) => Some(#b), None => None })))
            }
            ("and_then", 1) => {
                let (p, b) = closure1(&m.args[0])?;
                self.count("option-and_then");
                Some(parse_quote!((match #r { Some(#p) => #b, None => None })))
            }
            // `map.entry(k).or_insert(v)` / `.or_default()`
            ("or_insert", 1) | ("or_default", 0) => {
                let Expr::MethodCall(c) = &**r else { return None };
                if c.method != "entry" || c.args.len() != 1 {
                    return None;
                }
                let (map, k) = (&c.receiver, &c.args[0]);
                self.count("map-entry");
                Some(match m.args.first() {
                    Some(v) => parse_quote!(vx_entry_or(&mut #map, #k, #v)),
                    None => parse_quote!(vx_entry_or(&mut #map, #k, vx_default())),
                })
            }
            ("copied", 0) if self.e.opt("optcopied") => {
                self.count("option-copied");
                Some(parse_quote!((match #r { Some(__v) => Some(*__v), None => None })))
            }
            ("is_some_and", 1) => {
                let (p, b) = closure1(&m.args[0])?;
                self.count("option-is_some_and");
                Some(parse_quote!((match #r { Some(#p) => #b, None => false })))
            }
            ("is_none_or", 1) => {
                let (p, b) = closure1(&m.args[0])?;
                self.count("option-is_none_or");
                Some(parse_quote!((match #r { Some(#p) => #b, None => true })))
            }
            ("filter", 1) => {
                let (p, b) = closure1(&m.args[0])?;
                self.count("option-filter");
                Some(parse_quote!((match #r { Some(__v) => if { let #p = &__v; #b } { Some(__v) } else { None }, None => None })))
            }
            ("or_else", 1) => {
                let d = closure0(&m.args[0])?;
                self.count("option-or_else");
                Some(parse_quote!((match #r { Some(__v) => Some(__v), None => #d })))
            }
            ("then", 1) => {
                let d = closure0(&m.args[0])?;
                self.count("then");
                Some(parse_quote!((if #r { Some(#d) } else { None })))
            }
            ("map_or", 2) => {
                let d = &m.args[0];
                let (p, b) = closure1(&m.args[1])?;
                self.count("option-map_or");
                Some(parse_quote!((match #r { Some(#p) => #b, None => #d })))
            }
            ("max", 1) if self.e.opt("fx") => {
                let d = &m.args[0];
                self.count("max");
                Some(parse_quote!(vx_max(#r, #d)))
            }
            ("min", 1) if self.e.opt("fx") => {
                let d = &m.args[0];
                self.count("min");
                Some(parse_quote!(vx_min(#r, #d)))
            }
            ("to_vec", 0) => {
                // `x[a..b].to_vec()`
                let (x, lo, hi) = sub_range(r)?;
                self.count("range-to_vec");
                Some(parse_quote!(vx_sub_to_vec(&#x, #lo, #hi)))
            }
            ("clamp", 2) if self.e.opt("fx") => {
                let (a, b) = (&m.args[0], &m.args[1]);
                self.count("clamp");
                Some(parse_quote!(#r.vx_clamp(#a, #b)))
            }
            ("usize" | "u16" | "u32" | "u64", 1) => {
                // `rng.usize(a..=b)`
                let Expr::Range(g) = &m.args[0] else { return None };
                let (Some(a), Some(b), syn::RangeLimits::Closed(_)) = (&g.start, &g.end, &g.limits) else { return None };
                let id = &m.method;
                self.count("closed-range");
                Some(parse_quote!(#r.#id(#a..(#b + 1))))
            }
            ("then_some", 1) => {
                let d = &m.args[0];
                self.count("then_some");
                Some(parse_quote!((if #r { Some(#d) } else { None })))
            }
            ("max", 1) if !self.e.opt("nomax") => {
                let d = &m.args[0];
                self.count("int-max");
                Some(parse_quote!({ let __a = #r; let __b = #d; if __a > __b { __a } else { __b } }))
            }
            ("min", 1) if !self.e.opt("nomax") => {
                let d = &m.args[0];
                self.count("int-min");
                Some(parse_quote!({ let __a = #r; let __b = #d; if __a < __b { __a } else { __b } }))
            }
            _ => None,
        }
    }

    fn macro_expr(&mut self, mac: &syn::Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        let args = || -> Option<Vec<Expr>> {
            mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect())
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args()?;
                let c = &a[0];
                let p = self.panic_expr();
                Some(parse_quote!(if !(#c) { #p }))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let (x, y) = (&a[0], &a[1]);
                let p = self.panic_expr();
                Some(parse_quote!(if !(#x == #y) { #p }))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let (x, y) = (&a[0], &a[1]);
                let p = self.panic_expr();
                Some(parse_quote!(if #x == #y { #p }))
            }
            "matches" => {
                let (x, pat, guard): (Expr, Pat, bool) = mac
                    .parse_body_with(|i: syn::parse::ParseStream| {
                        let e: Expr = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = i.peek(syn::Token![if]);
                        let _: TokenStream = i.parse()?;
                        Ok((e, p, g))
                    })
                    .ok()?;
                let alts: Vec<Pat> = match pat {
                    Pat::Or(o) => o.cases.into_iter().collect(),
                    p => vec![p],
                };
                if guard || !alts.iter().all(|p| matches!(p, Pat::Slice(_))) {
                    return None;
                }
                // slice patterns without `..`: length test plus element tests
                let mut out: Option<Expr> = None;
                for a in alts {
                    let Pat::Slice(sl) = a else { return None };
                    let n = sl.elems.len();
                    let mut c: Expr = parse_quote!(#x.len() == #n);
                    for (i, p) in sl.elems.iter().enumerate() {
                        if matches!(p, Pat::Rest(_)) {
                            return None;
                        }
                        c = parse_quote!(#c && matches!(#x[#i], #p));
                    }
                    out = Some(match out { None => parse_quote!((#c)), Some(o) => parse_quote!(#o || (#c)) });
                }
                self.count("slice-pattern");
                out
            }
            "format" => {
                // message text: arbitrary
                self.count("format");
                Some(parse_quote!(vx_format()))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(self.panic_expr()),
            "vec" if !self.e.opt("keepvec") => {
                // vec![x; n] -> vx_vec_repeat(x, n); vec![] -> Vec::new()
                if mac.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let s = mac.tokens.to_string();
                if s.contains(';') {
                    let r: Option<(Expr, Expr)> = mac
                        .parse_body_with(|i: syn::parse::ParseStream| {
                            let a: Expr = i.parse()?;
                            i.parse::<syn::Token![;]>()?;
                            let b: Expr = i.parse()?;
                            Ok((a, b))
                        })
                        .ok();
                    if let Some((a, b)) = r {
                        self.count("vec-repeat");
                        return Some(parse_quote!(vx_vec_repeat(#a, #b)));
                    }
                }
                None
            }
            _ => None,
        }
    }
}

/// `x[a..b]` in all its forms: the base, the start and the end
fn sub_range(e: &Expr) -> Option<(Expr, Expr, Expr)> {
    let Expr::Index(i) = e else { return None };
    let mut g = &*i.index;
    while let Expr::Paren(p) = g {
        g = &p.expr;
    }
    let Expr::Range(g) = g else { return None };
    let x = (*i.expr).clone();
    let lo = g.start.as_ref().map_or(parse_quote!(0), |e| (**e).clone());
    let hi = match (&g.end, &g.limits) {
        (None, _) => parse_quote!(#x.len()),
        (Some(e), syn::RangeLimits::HalfOpen(_)) => (**e).clone(),
        (Some(e), syn::RangeLimits::Closed(_)) => parse_quote!((#e + 1)),
    };
    Some((x, lo, hi))
}

/// `let (a, &b) = e;` as plain bindings (only where the pattern contains a reference)
fn unpack(p: &Pat, e: TokenStream) -> Vec<Stmt> {
    fn has_ref(p: &Pat) -> bool {
        match p {
            Pat::Reference(_) => true,
            Pat::Tuple(t) => t.elems.iter().any(has_ref),
            _ => false,
        }
    }
    fn go(p: &Pat, e: TokenStream, out: &mut Vec<Stmt>) {
        match p {
            Pat::Tuple(t) if has_ref(p) => {
                for (j, q) in t.elems.iter().enumerate() {
                    let ix = syn::Index::from(j);
                    go(q, quote!(#e.#ix), out);
                }
            }
            Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)) => go(&r.pat, quote!(*#e), out),
            Pat::Wild(_) => {}
            p => out.push(parse_quote!(let #p = #e;)),
        }
    }
    if !has_ref(p) || matches!(p, Pat::Reference(_)) {
        return vec![parse_quote!(let #p = #e;)];
    }
    let mut v = vec![];
    go(p, e, &mut v);
    v
}
/// destructure tuple patterns against tuple expressions so that each binding is a plain `let`
fn bind(p: &Pat, e: &TokenStream, out: &mut Vec<Stmt>) {
    if let Pat::Tuple(pt) = p {
        if let Ok(Expr::Tuple(et)) = syn::parse2::<Expr>(e.clone()) {
            if et.elems.len() == pt.elems.len() {
                for (pp, ee) in pt.elems.iter().zip(et.elems.iter()) {
                    bind(pp, &ee.to_token_stream(), out);
                }
                return;
            }
        }
    }
    if let Pat::Reference(r) = p {
        if let Ok(Expr::Reference(er)) = syn::parse2::<Expr>(e.clone()) {
            if er.mutability.is_none() {
                bind(&r.pat, &er.expr.to_token_stream(), out);
                return;
            }
        }
    }
    if let Pat::Wild(_) = p {
        return;
    }
    out.push(parse_quote!(let #p = #e;));
}

impl VisitMut for Ctx<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut stmts = std::mem::take(&mut b.stmts);
        // `let it = <lazy iterator chain>; for p in .. it .. {}`: the chain is lazy, so it may be named in place
        let mut i = 0;
        while i + 1 < stmts.len() {
            let mut named = None;
            if let Stmt::Local(l) = &stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(mc) = &*init.expr {
                        let lazy = ["iter", "iter_mut", "zip", "zip_eq", "enumerate", "take", "skip", "rev", "copied", "cloned", "chunks", "chunks_mut", "map"];
                        if pi.by_ref.is_none() && lazy.contains(&mc.method.to_string().as_str()) && self.parse_it(&init.expr, false).is_some() {
                            named = Some((pi.ident.clone(), (*init.expr).clone()));
                        }
                    }
                }
            }
            if let Some((id, init)) = named {
                let branches = |e: &Expr| matches!(e, Expr::If(_) | Expr::Match(_));
                if matches!(&stmts[i + 1], Stmt::Expr(e, _) if branches(e)) && i + 2 == stmts.len() {
                    // the closing `if`/`match`: an iterator is consumed at most once on every path; no use inside a loop or closure
                    let mut bad = LoopUse { id: id.clone(), inside: 0, n: 0 };
                    let Stmt::Expr(e, _) = &mut stmts[i + 1] else { unreachable!() };
                    bad.visit_expr_mut(e);
                    if bad.n == 0 {
                        let mut r = InlineIdent { id, with: init, n: 0 };
                        r.visit_expr_mut(e);
                        if r.n > 0 {
                            self.count("iterator-let-inlined");
                            stmts.remove(i);
                            continue;
                        }
                    }
                } else if let Stmt::Expr(Expr::ForLoop(f), _) = &mut stmts[i + 1] {
                    let mut r = InlineIdent { id, with: init, n: 0 };
                    r.visit_expr_mut(&mut f.expr);
                    if r.n == 1 {
                        self.count("iterator-let-inlined");
                        stmts.remove(i);
                        continue;
                    }
                }
            }
            i += 1;
        }
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            let is_marker = matches!(&s, Stmt::Macro(m) if m.mac.path.is_ident("__vx"));
            if is_marker {
                out.push(s);
                continue;
            }
            // a local `const` is the same value at every use
            if let Stmt::Item(syn::Item::Const(c)) = &s {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                self.count("local-const");
                s = parse_quote!(let #n: #t = #e;);
            }
            // nested items are extracted separately
            if matches!(s, Stmt::Item(syn::Item::Fn(_)) | Stmt::Item(syn::Item::Struct(_)) | Stmt::Item(syn::Item::Enum(_)) | Stmt::Item(syn::Item::Use(_))) {
                self.count("nested-item-hoisted");
                continue;
            }
            let txt = norm(&s);
            let mut before = vec![];
            let mut after = vec![];
            for i in 0..self.anchors.len() {
                let (kind, pat, nth, _) = self.anchors[i].clone();
                if (kind == "before" || kind == "after") && txt.starts_with(&pat) {
                    if self.seen[i] == nth {
                        self.hit[i] = true;
                        let m = self.mark(&format!("at#{i}"));
                        if kind == "before" {
                            before.push(m)
                        } else {
                            after.push(m)
                        }
                    }
                    self.seen[i] += 1;
                }
            }
            out.append(&mut before);
            match &mut s {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    let f = f.clone();
                    match self.parse_it(&f.expr, true) {
                        Some(c) => {
                            let mut v = self.expand(c, (*f.pat).clone(), f.body.stmts.clone(), f.label.clone());
                            out.append(&mut v);
                        }
                        None => {
                            let mut v = self.native_for(f);
                            out.append(&mut v);
                        }
                    }
                }
                Stmt::Macro(m) => match self.macro_expr(&m.mac) {
                    Some(mut e) => {
                        visit_mut::visit_expr_mut(self, &mut e);
                        let last_noval = m.semi_token.is_none();
                        out.push(if last_noval { Stmt::Expr(e, None) } else { Stmt::Expr(e, Some(Default::default())) });
                    }
                    None => out.push(s),
                },
                Stmt::Local(l) => {
                    // lambda lifting of non-capturing closures, when the unit gives them a contract
                    let name = match &l.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => String::new(),
                    };
                    if self.e.sec(&format!("lift {name}")).is_some() {
                        if let Some(syn::LocalInit { expr, .. }) = &l.init {
                            if let Expr::Closure(c) = &**expr {
                                let mut body: syn::Block = match &*c.body {
                                    Expr::Block(b) => b.block.clone(),
                                    e => parse_quote!({ #e }),
                                };
                                self.visit_block_mut(&mut body);
                                body.stmts.insert(0, self.mark(&format!("lift {name}")));
                                let id = format_ident!("{}", name);
                                let ins = &c.inputs;
                                let out_ty = match &c.output {
                                    syn::ReturnType::Type(_, t) => quote!(-> __VxRet<#t>),
                                    _ => quote!(),
                                };
                                self.count("closure-lifted");
                                self.lifted.push(quote!(pub fn #id(#ins) #out_ty #body));
                                out.append(&mut after);
                                continue;
                            }
                        }
                    }
                    self.visit_local_mut(l);
                    out.push(s);
                }
                Stmt::Expr(Expr::MethodCall(m), semi) if m.method == "extend" && m.args.len() == 1 => {
                    let m2 = m.clone();
                    let semi = *semi;
                    match self.parse_it(&m2.args[0], true) {
                        Some(c) if !matches!(c.it, It::Ref(ref x) if matches!(x, Expr::Path(_)) && c.stages.is_empty() && !self.e.opt("extendref")) => {
                            let recv = &m2.receiver;
                            self.count("extend");
                            let mut v = self.expand(c, parse_quote!(__v), vec![parse_quote!(#recv.push(__v);)], None);
                            out.append(&mut v);
                        }
                        _ => {
                            let mut e: Expr = Expr::MethodCall(m2);
                            self.visit_expr_mut(&mut e);
                            out.push(Stmt::Expr(e, semi));
                        }
                    }
                }
                _ => {
                    visit_mut::visit_stmt_mut(self, &mut s);
                    out.push(s);
                }
            }
            out.append(&mut after);
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let txt = norm(&a.pat);
        let mut marks = vec![];
        for i in 0..self.anchors.len() {
            let (kind, pat, nth, _) = self.anchors[i].clone();
            if kind == "arm" && txt.starts_with(&pat) {
                if self.seen[i] == nth {
                    self.hit[i] = true;
                    marks.push(self.mark(&format!("at#{i}")));
                }
                self.seen[i] += 1;
            }
        }
        if !marks.is_empty() {
            let body = (*a.body).clone();
            let mut blk: syn::Block = match body {
                Expr::Block(b) if b.label.is_none() => b.block,
                e => parse_quote!({ #e }),
            };
            let mut st = marks;
            st.append(&mut blk.stmts);
            blk.stmts = st;
            a.body = Box::new(parse_quote!(#blk));
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                if let Some(c) = self.parse_it(&f.expr, true) {
                    let v = self.expand(c, (*f.pat).clone(), f.body.stmts.clone(), f.label.clone());
                    *e = parse_quote!({ #(#v)* });
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            // `match <indexed place>` with guarded arms over a Copy value: the value is read once
            Expr::Match(m) if crate::norm(&m.expr).ends_with(".as_slice()") && m.arms.iter().all(|a| a.guard.is_none()) && slice_arms(&m.arms).is_some() => {
                // `match v.as_slice() { [] => .., [x] => .., _ => .. }` -> tests of the length
                self.count("match-slice");
                let Expr::MethodCall(mc) = &*m.expr else { return };
                let x = &mc.receiver;
                let mut acc: Option<Expr> = None;
                for (arm, pats) in m.arms.iter().zip(slice_arms(&m.arms).unwrap()).rev() {
                    let body = &arm.body;
                    acc = Some(match (pats, acc) {
                        (None, _) => parse_quote!({ #body }),
                        (Some(ids), rest) => {
                            let n = ids.len();
                            let lets: Vec<Stmt> = ids.iter().enumerate().map(|(i, p)| parse_quote!(let #p = &#x[#i];)).collect();
                            let r: Expr = rest.unwrap_or_else(|| parse_quote!({ vx_panic() }));
                            parse_quote!(if #x.len() == #n { #(#lets)* #body } else { #r })
                        }
                    });
                }
                *e = acc.unwrap();
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Match(m) if self.e.opt("matchval") && matches!(&*m.expr, Expr::Field(_) | Expr::Index(_)) && m.arms.iter().any(|a| a.guard.is_some()) => {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Match(m) = e {
                    let x = (*m.expr).clone();
                    m.expr = parse_quote!(__m);
                    let m = m.clone();
                    self.count("match-value");
                    *e = parse_quote!({ let __m = #x; #m });
                }
            }
            Expr::While(w) => {
                let id = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut w.cond);
                self.loop_stack.push(id);
                self.visit_block_mut(&mut w.body);
                self.loop_stack.pop();
                let mut st = vec![self.mark(&format!("loop {id}")), self.mark(&format!("head {id}"))];
                st.append(&mut w.body.stmts);
                st.push(self.mark(&format!("tail {id}")));
                w.body.stmts = st;
                let (mb, ma) = (self.mark(&format!("before {id}")), self.mark(&format!("after {id}")));
                let has = |k: &str| self.e.sec(&format!("{k} {id}")).is_some();
                if let Expr::Let(l) = (*w.cond).clone() {
                    // while let P = X { B }  ->  loop { match X { P => { B } _ => break } }
                    self.count("while-let");
                    let (p, x) = (l.pat, l.expr);
                    let body = w.body.stmts.split_off(1);
                    let m0 = w.body.stmts[0].clone();
                    let lab = w.label.clone();
                    *e = parse_quote!(#lab loop { #m0 match #x { #p => { #(#body)* } _ => { break; } } });
                }
                if has("before") || has("after") {
                    let inner = e.clone();
                    *e = parse_quote!({ #mb #inner #ma });
                }
            }
            Expr::Loop(w) => {
                let id = self.loops;
                self.loops += 1;
                self.loop_stack.push(id);
                self.visit_block_mut(&mut w.body);
                self.loop_stack.pop();
                let mut st = vec![self.mark(&format!("loop {id}")), self.mark(&format!("head {id}"))];
                st.append(&mut w.body.stmts);
                st.push(self.mark(&format!("tail {id}")));
                w.body.stmts = st;
                let (mb, ma) = (self.mark(&format!("before {id}")), self.mark(&format!("after {id}")));
                let has = |k: &str| self.e.sec(&format!("{k} {id}")).is_some();
                if has("before") || has("after") {
                    let inner = e.clone();
                    *e = parse_quote!({ #mb #inner #ma });
                }
            }
            Expr::Continue(_) => {
                if let Some(id) = self.loop_stack.last() {
                    let k = format!("tail {id}");
                    if self.e.sec(&k).is_some() {
                        let m = self.mark(&k);
                        let c = e.clone();
                        *e = parse_quote!({ #m #c });
                    }
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                if self.exit {
                    let m = self.mark("exit");
                    *e = match &r.expr {
                        Some(x) => parse_quote!({ let __ret = #x; #m return __ret; }),
                        None => parse_quote!({ #m return; }),
                    };
                }
            }
            Expr::Call(c) if ["::core::panicking::panic", "::core::panicking::panic_fmt", "core::panicking::panic"].contains(&crate::norm(&c.func).as_str()) => {
                // compiler-expanded `panic!`/`unreachable!`
                *e = self.panic_expr();
            }
            Expr::Macro(m) => {
                if let Some(mut x) = self.macro_expr(&m.mac) {
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                }
            }
            // `a[i]` and `a[i] = v` of an array type: the element functions of proofs/nd.inc
            Expr::Assign(a) if self.e.opt("ndidx") && matches!(&*a.left, Expr::Index(_)) => {
                let Expr::Index(ix) = &*a.left else { unreachable!() };
                let (mut b, mut i, mut v) = ((*ix.expr).clone(), (*ix.index).clone(), (*a.right).clone());
                for x in [&mut b, &mut i, &mut v] {
                    self.visit_expr_mut(x);
                }
                self.count("nd-index");
                *e = parse_quote!(#b.vx_set(#i, #v));
            }
            Expr::Index(ix) if self.e.opt("ndidx") => {
                let (mut b, mut i) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut b);
                self.visit_expr_mut(&mut i);
                self.count("nd-index");
                *e = parse_quote!(#b.vx_get(#i));
            }
            // `&x[a..=b]`
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(g) if matches!(g.limits, syn::RangeLimits::Closed(_)) && g.end.is_some()) => {
                visit_mut::visit_expr_mut(self, e);
                let (x, lo, hi) = sub_range(e).unwrap();
                self.count("closed-range");
                *e = parse_quote!(#x[#lo..#hi]);
            }
            // `usize::try_from(x)` of an isize
            Expr::Call(c) if norm_path(&c.func) == "usize::try_from" && c.args.len() == 1 => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Call(c) = &*e else { unreachable!() };
                let x = &c.args[0];
                self.count("try-from");
                *e = parse_quote!(vx_usize_try(#x));
            }
            // comparison with a literal Ordering: a pattern test
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && ordering_lit(&b.right).is_some() => {
                self.visit_expr_mut(&mut b.left);
                let (l, p) = (&b.left, ordering_lit(&b.right).unwrap());
                self.count("ordering-eq");
                let eq = matches!(b.op, syn::BinOp::Eq(_));
                *e = if eq {
                    parse_quote!((match #l { #p => true, _ => false }))
                } else {
                    parse_quote!((match #l { #p => false, _ => true }))
                };
            }
            Expr::Binary(b) if self.e.opt("boolops") && matches!(b.op, syn::BinOp::BitAndAssign(_) | syn::BinOp::BitOrAssign(_)) => {
                // `a &= b` / `a |= b` on bool (both sides are always evaluated)
                self.count("bool-assign-op");
                visit_mut::visit_expr_mut(self, &mut b.right);
                let (l, r) = (b.left.clone(), b.right.clone());
                *e = if matches!(b.op, syn::BinOp::BitAndAssign(_)) {
                    parse_quote!(#l = { let __b: bool = #r; #l && __b })
                } else {
                    parse_quote!(#l = { let __b: bool = #r; #l || __b })
                };
            }
            Expr::Binary(b) if self.e.opt("addassign") && matches!(b.op, syn::BinOp::AddAssign(_)) => {
                // `a += b` on an abstract number type
                self.count("add-assign");
                visit_mut::visit_expr_mut(self, &mut b.right);
                let (l, r) = (b.left.clone(), b.right.clone());
                *e = parse_quote!(#l = #l + #r);
            }
            Expr::Try(t) if matches!(&*t.expr, Expr::MethodCall(m) if m.method == "map_err" && m.args.len() == 1) => {
                // `x.map_err(f)?`: the error, converted, is what the function returns (its error type is f's result type)
                let Expr::MethodCall(m) = &*t.expr else { unreachable!() };
                let r = (*m.receiver).clone();
                let mut new: Expr = match closure1(&m.args[0]) {
                    Some((p, b)) => parse_quote!((match #r { Ok(__v) => __v, Err(#p) => return Err(#b) })),
                    None => { let f = &m.args[0]; parse_quote!((match #r { Ok(__v) => __v, Err(__x) => return Err(#f(__x)) })) }
                };
                self.count("map_err-try");
                visit_mut::visit_expr_mut(self, &mut new);
                *e = new;
            }
            Expr::Call(c) if norm_path(&c.func).ends_with("array::from_fn") && self.e.opts.iter().any(|o| o.starts_with("fromfn:")) => {
                // array::from_fn(|j| body)  ->  collect bodies for j in 0..N, then take the array
                let n = self.e.opts.iter().find_map(|o| o.strip_prefix("fromfn:")).unwrap().to_string();
                let n: Expr = syn::parse_str(&n).unwrap_or_else(|_| die("UNIT", "fromfn length"));
                match c.args.first().and_then(closure1) {
                    Some((p, b)) => {
                        self.count("array-from-fn");
                        let id = self.loops;
                        let acc = format_ident!("__acc{}", id);
                        let chain = Chain { it: It::Range(parse_quote!(0usize), n), stages: vec![] };
                        let body = self.expand(chain, p, vec![parse_quote!(#acc.push(#b);)], None);
                        *e = parse_quote!({ let mut #acc = Vec::new(); #(#body)* vx_vec_to_array(#acc) });
                    }
                    None => visit_mut::visit_expr_mut(self, e),
                }
            }
            Expr::Call(_) if self.e.sec("closure 0").is_some() => {
                // closures with a contract are named in front of the call they are handed to
                let saved = std::mem::take(&mut self.pending);
                visit_mut::visit_expr_mut(self, e);
                let p = std::mem::replace(&mut self.pending, saved);
                if !p.is_empty() {
                    let (m0, m1) = (self.mark("closures"), self.mark("closed"));
                    let call = e.clone();
                    *e = parse_quote!({ #(#p)* #m0 let __vxr = #call; #m1 __vxr });
                }
            }
            Expr::Closure(c) => {
                // closures handed to higher-order functions get the unit's contract
                let id = self.closures;
                self.closures += 1;
                let key = format!("closure {id}");
                if let Some(sec) = self.e.sec(&key) {
                    let head = sec.lines().next().unwrap_or("").trim().to_string();
                    let head = head.strip_prefix("types ").unwrap_or_else(|| die("UNIT", "closure section needs a `types` line")).to_string();
                    let (ins, ret) = head.rsplit_once(" -> ").unwrap_or_else(|| die("UNIT", "closure types"));
                    let tys: Vec<&str> = ins.split(" ; ").map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
                    if tys.len() != c.inputs.len() {
                        die("ANCHOR", &format!("closure {id} takes {} arguments", c.inputs.len()));
                    }
                    let mut binds: Vec<Stmt> = vec![];
                    for (i, inp) in c.inputs.iter_mut().enumerate() {
                        let ty: syn::Type = syn::parse_str(tys[i]).unwrap_or_else(|_| die("UNIT", "closure type"));
                        let base = match &*inp { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        let pid = match base {
                            Pat::Ident(p) => p.ident,
                            Pat::Wild(_) => format_ident!("__w{}", i),
                            Pat::Reference(r) => {
                                let (n, p) = (format_ident!("__c{}", i), r.pat);
                                binds.push(parse_quote!(let #p = *#n;));
                                n
                            }
                            Pat::Tuple(t) => {
                                // `|(a, b)|` over a reference to a pair
                                let n = format_ident!("__c{}", i);
                                for (j, q) in t.elems.iter().enumerate() {
                                    let ix = syn::Index::from(j);
                                    match q {
                                        Pat::Wild(_) => {}
                                        Pat::Ident(_) => binds.push(parse_quote!(let #q = &#n.#ix;)),
                                        _ => die("ANCHOR", "closure argument pattern"),
                                    }
                                }
                                n
                            }
                            _ => die("ANCHOR", "closure argument pattern"),
                        };
                        *inp = Pat::Type(syn::PatType { attrs: vec![], pat: Box::new(parse_quote!(#pid)), colon_token: Default::default(), ty: Box::new(ty) });
                    }
                    let rt: syn::Type = syn::parse_str(ret).unwrap_or_else(|_| die("UNIT", "closure type"));
                    let mut body: syn::Block = match &*c.body {
                        Expr::Block(b) => b.block.clone(),
                        e => parse_quote!({ #e }),
                    };
                    self.visit_block_mut(&mut body);
                    for b in binds.into_iter().rev() {
                        body.stmts.insert(0, b);
                    }
                    body.stmts.insert(0, self.mark(&key));
                    c.body = Box::new(parse_quote!(#body));
                    c.output = parse_quote!(-> __VxRet<#rt>);
                    self.count("closure-contract");
                    let nm = format_ident!("__cl{}", id);
                    let cl = c.clone();
                    self.pending.push(parse_quote!(let #nm = #cl;));
                    *e = parse_quote!(#nm);
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            Expr::MethodCall(m) if m.method == "with" && m.args.len() == 1 && self.e.opt(&format!("tls:{}", norm(&m.receiver))) => {
                // thread-local scratch: its previous content is arbitrary
                let (p, b) = closure1(&m.args[0]).unwrap_or_else(|| die("ANCHOR", "thread-local closure"));
                let Pat::Ident(pi) = p else { die("ANCHOR", "thread-local closure") };
                let id = pi.ident;
                let mut body: syn::Block = match b {
                    Expr::Block(b) => b.block,
                    e => parse_quote!({ #e }),
                };
                body.stmts.retain(|st| norm(st) != format!("letmut{id}={id}.borrow_mut();"));
                self.count("thread-local-any");
                let mut x: Expr = parse_quote!({ let mut #id = vx_any_vec(); #body });
                visit_mut::visit_expr_mut(self, &mut x);
                *e = x;
            }
            Expr::MethodCall(m) if m.method == "sort_by" && m.args.len() == 1 && self.e.sec(&format!("closure {}", self.closures)).is_some() => {
                let (r, f) = (m.receiver.clone(), m.args[0].clone());
                self.count("sort_by");
                let mut x: Expr = parse_quote!(vx_sort_by(&mut #r, #f));
                self.visit_expr_mut(&mut x);
                *e = x;
            }
            Expr::MethodCall(m) => {
                let m2 = m.clone();
                if let Some(x) = self.chain_sink(&m2) {
                    *e = x;
                    return;
                }
                if let Some(mut x) = self.option_method(&m2) {
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// the arms of a match on a slice by exact length: the element patterns, or None for `_`
fn slice_arms(arms: &[syn::Arm]) -> Option<Vec<Option<Vec<Pat>>>> {
    let mut v = vec![];
    for a in arms {
        match &a.pat {
            Pat::Slice(s) if s.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_))) => v.push(Some(s.elems.iter().cloned().collect())),
            Pat::Wild(_) => v.push(None),
            _ => return None,
        }
    }
    matches!(v.last(), Some(None)).then_some(v)
}
