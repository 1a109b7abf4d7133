//! `opt text`: texts as byte sequences.  `String`/`str` become `Vec<u8>`/`[u8]`, string and byte literals their bytes, `format!` a
//! sequence of appends (literal pieces and `{}`/`{name}` arguments only), `join`, `to_string`, `as_str` and `as_bytes` the functions of
//! proofs/text.inc.  Everything else is left as it is; a format the pieces do not cover makes the unit unextractable.
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt, Type};

pub struct Text {
    pub n: usize,
}
fn bytes(s: &str) -> Expr {
    let b = s.bytes().map(|x| syn::LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site()));
    parse_quote!(&[#(#b),*])
}
enum Piece {
    Lit(String),
    Arg(Option<String>),
}
fn pieces(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{') }
            '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}') }
            '{' => {
                if !lit.is_empty() { out.push(Piece::Lit(std::mem::take(&mut lit))); }
                let mut name = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c if c.is_alphanumeric() || c == '_' => name.push(c),
                        _ => return None,
                    }
                }
                out.push(Piece::Arg(if name.is_empty() { None } else { Some(name) }));
            }
            '}' => return None,
            c => lit.push(c),
        }
    }
    if !lit.is_empty() { out.push(Piece::Lit(lit)); }
    Some(out)
}
impl Text {
    fn format(&mut self, m: &syn::Macro) -> Option<Expr> {
        let args: Vec<Expr> = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?.into_iter().collect();
        let Expr::Lit(l) = args.first()? else { return None };
        let syn::Lit::Str(f) = &l.lit else { return None };
        let mut rest = args[1..].iter();
        let mut st: Vec<Stmt> = vec![];
        for p in pieces(&f.value())? {
            match p {
                Piece::Lit(s) => { let b = bytes(&s); st.push(parse_quote!(vx_put(&mut __f, #b);)); }
                Piece::Arg(Some(n)) => { let i: Expr = syn::parse_str(&n).ok()?; st.push(parse_quote!(vx_put_show(&mut __f, &#i);)); }
                Piece::Arg(None) => { let mut a = rest.next()?.clone(); self.visit_expr_mut(&mut a); st.push(parse_quote!(vx_put_show(&mut __f, &#a);)); }
            }
        }
        if rest.next().is_some() { return None; }
        self.n += 1;
        Some(parse_quote!({ let mut __f = vx_empty_text(); #(#st)* __f }))
    }
}
impl VisitMut for Text {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident("String") { *t = parse_quote!(Vec<u8>); self.n += 1; return; }
            if p.path.is_ident("str") { *t = parse_quote!([u8]); self.n += 1; return; }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Lit(l) = p {
            if let syn::Lit::Byte(b) = &l.lit {
                let v = syn::LitInt::new(&format!("{}u8", b.value()), b.span());
                *p = parse_quote!(#v);
                self.n += 1;
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => { *e = bytes(&s.value()); self.n += 1; }
                syn::Lit::Byte(b) => { let v = syn::LitInt::new(&format!("{}u8", b.value()), b.span()); *e = parse_quote!(#v); self.n += 1; }
                _ => {}
            },
            Expr::Macro(m) if m.mac.path.is_ident("format") => {
                let mac = m.mac.clone();
                match self.format(&mac) {
                    Some(x) => *e = x,
                    None => crate::die("ANCHOR", "format! with pieces that are not covered"),
                }
            }
            Expr::MethodCall(_) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::MethodCall(m) = e else { return };
                let r = &m.receiver;
                let name = m.method.to_string();
                let x: Expr = match (name.as_str(), m.args.len()) {
                    ("as_bytes", 0) => parse_quote!(#r),
                    ("as_str", 0) => parse_quote!(#r.as_slice()),
                    ("trim", 0) => parse_quote!(vx_trim(#r)),
                    ("eq_ignore_ascii_case", 1) => { let a = &m.args[0]; parse_quote!(vx_same_letters(#r, #a)) }
                    ("to_string", 0) => parse_quote!(#r.vx_show()),
                    ("join", 1) => { let a = &m.args[0]; parse_quote!(vx_join(&#r, #a)) }
                    _ => return,
                };
                *e = x;
                self.n += 1;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
