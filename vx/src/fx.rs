//! `opt fx`: floating-point code is written over the opaque type Fx (proofs/fx.inc).
//! f64/f32 -> Fx, literals -> Fx::lit(n, d), constants and casts to calls, `a op= b` -> `a = a op b`.
use crate::{die, norm};
use quote::format_ident;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr};

pub struct Fx {
    pub n: usize,
}

fn lit(s: &str) -> Expr {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let s = s.trim_end_matches("f64").trim_end_matches("f32").to_string();
    let (m, ex) = match s.split_once(['e', 'E']) {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap_or(0)),
        None => (s.clone(), 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((&m, ""));
    let mut num: u128 = format!("{i}{f}").parse().unwrap_or_else(|_| die("ANCHOR", &format!("float literal {s}")));
    let mut exp = ex - f.len() as i32;
    while exp < 0 && num % 10 == 0 && num > 0 {
        num /= 10;
        exp += 1;
    }
    let mut den: u128 = 1;
    if num == 0 {
        exp = 0;
    }
    for _ in 0..exp.max(0) {
        num = num.saturating_mul(10);
    }
    for _ in 0..(-exp).max(0) {
        den = den.saturating_mul(10);
    }
    match (u64::try_from(num), u64::try_from(den)) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (proc_macro2::Literal::u64_unsuffixed(a), proc_macro2::Literal::u64_unsuffixed(b));
            parse_quote!(Fx::lit(#a, #b))
        }
        _ => parse_quote!(Fx::any()),
    }
}

impl VisitMut for Fx {
    fn visit_type_path_mut(&mut self, t: &mut syn::TypePath) {
        if t.qself.is_none() && (t.path.is_ident("f64") || t.path.is_ident("f32")) {
            *t = parse_quote!(Fx);
            self.n += 1;
            return;
        }
        visit_mut::visit_type_path_mut(self, t);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let name = norm(&m.path);
        if name == "vec" && m.tokens.to_string().contains(';') {
            if let Ok((mut a, b)) = m.parse_body_with(|i: syn::parse::ParseStream| {
                let a: Expr = i.parse()?;
                i.parse::<syn::Token![;]>()?;
                let b: Expr = i.parse()?;
                Ok((a, b))
            }) {
                self.visit_expr_mut(&mut a);
                m.tokens = quote::quote!(#a; #b);
            }
        } else if ["vec", "assert", "assert_eq", "debug_assert"].contains(&name.as_str()) {
            if let Ok(p) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                let mut v: Vec<Expr> = p.into_iter().collect();
                v.iter_mut().for_each(|e| if !matches!(e, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })) { self.visit_expr_mut(e) });
                m.tokens = quote::quote!(#(#v),*);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let narrow = matches!(e, Expr::Cast(c) if norm(&c.ty) == "f32");
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(l) => {
                if let syn::Lit::Float(f) = &l.lit {
                    *e = lit(&f.to_string());
                    self.n += 1;
                }
            }
            Expr::Path(p) => {
                let s = norm(&p.path);
                if let Some(c) = s.strip_prefix("f64::").or_else(|| s.strip_prefix("f32::")).or_else(|| s.strip_prefix("Fx::")).or_else(|| s.strip_prefix("std::f64::consts::")).or_else(|| s.strip_prefix("std::f64::")) {
                    let id = format_ident!("{}", match c { "MAX" => "max_value".to_string(), "MIN" => "min_value".to_string(), _ => c.to_lowercase() });
                    *e = if c.chars().all(|x| x.is_uppercase() || x == '_' || x.is_ascii_digit()) { parse_quote!(Fx::#id()) } else { parse_quote!(Fx::#id) };
                    self.n += 1;
                }
            }
            Expr::Cast(c) => {
                let x = &c.expr;
                if norm(&c.ty) == "Fx" {
                    *e = if narrow { parse_quote!(vx_f32(#x)) } else { parse_quote!(vx_fx(#x)) };
                    self.n += 1;
                } else if let Expr::MethodCall(m) = &**x {
                    if ["floor", "ceil", "round", "trunc"].contains(&m.method.to_string().as_str()) {
                        let id = format_ident!("vx_to_{}", norm(&c.ty));
                        *e = parse_quote!(#id(#x));
                    }
                }
            }
            Expr::Binary(b) => {
                use syn::BinOp::*;
                let op: Option<syn::BinOp> = match b.op {
                    AddAssign(_) => Some(Add(Default::default())),
                    SubAssign(_) => Some(Sub(Default::default())),
                    MulAssign(_) => Some(Mul(Default::default())),
                    DivAssign(_) => Some(Div(Default::default())),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = #l #op (#r));
                    self.n += 1;
                }
            }
            _ => {}
        }
    }
}
