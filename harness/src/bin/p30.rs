//! P30: an operator selection holds exactly the operators its tokens name.
use harness::de::*;
use harness::sr::{OperatorSelectError, Operators};
use harness::*;

/// A set whose tokens collide in every way: across arities, within one, by case, name against display against infix.
struct Syms;
macro_rules! m {
    ($a:expr, $i:expr, $n:expr, $d:expr, $x:expr) => {
        OpMeta { arity: $a, id: $i, name: $n, display: $d, infix: $x, commutative: false, associative: false, complexity: 1 }
    };
}
static METAS: [OpMeta; 18] = [
    m!(1, 0, "neg", "-", Some("-")),
    m!(1, 7, "cos", "Cos", None),
    m!(1, 2, "Twice", "2*", Some("~")),
    m!(1, 263, "cube", "max", None),
    m!(2, 0, "add", "+", Some("+")),
    m!(2, 1, "max", "Max", None),
    m!(2, 2, "pow", "**", Some("^")),
    m!(2, 3, "sub", "-", Some("-")),
    m!(2, 4, "power", "^^", Some("**")),
    m!(2, 5, "ADD2", "Add", None),
    m!(3, 0, "fma", "FMA", None),
    m!(3, 1, "sum", "+++", Some("+")),
    m!(3, 65281, "last", "LAST", None),
    m!(4, 0, "quad", "Quad", None),
    m!(4, 1, "sum", "++++", None),
    m!(5, 0, "quint", "Quint", Some("#")),
    m!(5, 1, "Fma", "five", None),
    m!(5, 2, "top", "Top", Some("*****")),
];
impl OperatorSet for Syms {
    type T = f64;
    const MAX_ARITY: u8 = 5;
    fn ops_with_arity(a: u8) -> &'static [u16] {
        match a { 1 => &[0, 7, 2, 263], 2 => &[0, 1, 2, 3, 4, 5], 3 => &[0, 1, 65281], 4 => &[0, 1], 5 => &[0, 1, 2], _ => &[] }
    }
    fn meta(op: OpId) -> Option<&'static OpMeta> { METAS.iter().find(|m| m.arity == op.arity && m.id == op.id) }
    fn eval(_: OpId, _: dispatch::EvalKernelCtx<'_, '_, f64>) -> bool { unreachable!() }
    fn diff(_: OpId, _: dispatch::DiffKernelCtx<'_, '_, f64>) -> bool { unreachable!() }
    fn grad(_: OpId, _: dispatch::GradKernelCtx<'_, '_, f64>) -> bool { unreachable!() }
}
/// every operator of arity `a` (any arity up to the highest, if none is given) that the token names
fn named<O: OperatorSet>(a: Option<u8>, tok: &str) -> Vec<OpId> {
    let t = tok.trim();
    let mut out = vec![];
    for arity in 0..=40u8 {
        if match a { Some(x) => x != arity, None => arity < 1 || arity > O::MAX_ARITY } { continue; }
        for &id in O::ops_with_arity(arity) {
            let op = OpId { arity, id };
            let Some(m) = O::meta(op) else { continue };
            let same = m.name.len() == t.len() && m.name.bytes().zip(t.bytes()).all(|(x, y)| x.to_ascii_lowercase() == y.to_ascii_lowercase());
            if same || m.display == t || m.infix == Some(t) { out.push(op); }
        }
    }
    out
}
fn want<const D: usize, O: OperatorSet>(asks: &[(Option<u8>, &str)]) -> Result<Vec<Vec<OpId>>, String> {
    if asks.is_empty() { return Err("empty".into()); }
    let mut out: Vec<Vec<OpId>> = vec![vec![]; D];
    let mut seen: Vec<OpId> = vec![];
    for (a, tok) in asks {
        let c = named::<O>(*a, tok);
        if c.is_empty() { return Err("unknown".into()); }
        if c.len() > 1 { return Err("ambiguous".into()); }
        if c[0].arity as usize > D { return Err(format!("too large {tok} {} {D}", c[0].arity)); }
        if seen.contains(&c[0]) { return Err(format!("duplicate {tok}")); }
        seen.push(c[0]);
        out[c[0].arity as usize - 1].push(c[0]);
    }
    Ok(out)
}
fn kind(e: &OperatorSelectError) -> String {
    match e {
        OperatorSelectError::Empty => "empty".into(),
        OperatorSelectError::Lookup(LookupError::Unknown(_)) => "unknown".into(),
        OperatorSelectError::Lookup(LookupError::Ambiguous { .. }) => "ambiguous".into(),
        OperatorSelectError::ArityTooLarge { token, arity, max_arity } => format!("too large {token} {arity} {max_arity}"),
        OperatorSelectError::Duplicate(t) => format!("duplicate {t}"),
        other => format!("{other:?}"),
    }
}
fn compare<const D: usize>(got: Result<Operators<D>, OperatorSelectError>, want: Result<Vec<Vec<OpId>>, String>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Ok(w)) if g.ops_by_arity.iter().zip(&w).all(|(a, b)| a == b) => {
            for a in 1..=D { if g.nops(a) != w[a - 1].len() { return Err(format!("{} operators of arity {a}, reported {}", w[a - 1].len(), g.nops(a))); } }
            let t: usize = w.iter().map(|x| x.len()).sum();
            if g.total_ops_up_to(D + 3) != t { return Err(format!("{t} operators, {} counted", g.total_ops_up_to(D + 3))); }
            Ok(())
        }
        (Err(g), Err(w)) if kind(&g) == w => Ok(()),
        (g, w) => Err(format!("selection gave {g:?}, the tokens say {w:?}")),
    }
}
fn plain<const D: usize, O: OperatorSet>(names: &[&str]) -> Result<(), String> {
    let asks: Vec<_> = names.iter().map(|&n| (None, n)).collect();
    compare(Operators::<D>::from_names::<O>(names), want::<D, O>(&asks))
}
fn lists<const D: usize, O: OperatorSet>(l: &[Vec<&str>; 3]) -> Result<(), String> {
    let asks: Vec<_> = (0..3).flat_map(|i| l[i].iter().map(move |&n| (Some(i as u8 + 1), n))).collect();
    compare(Operators::<D>::from_names_by_arity::<O>(&l[0], &l[1], &l[2]), want::<D, O>(&asks))
}
fn single<O: OperatorSet>(tok: &str) -> Result<(), String> {
    for a in (0..=O::MAX_ARITY + 1).map(Some).chain([None]) {
        let c = named::<O>(a, tok);
        let g = match a { Some(a) => O::lookup_with_arity(tok, a), None => O::lookup(tok) };
        let ok = match &g {
            Ok(op) => c == [*op],
            Err(LookupError::Unknown(t)) => c.is_empty() && t == tok.trim(),
            Err(LookupError::Ambiguous { token, candidates }) => c.len() > 1 && token == tok.trim() && candidates.len() == c.len() && c.iter().zip(candidates).all(|(o, n)| O::name(*o) == *n),
        };
        if !ok { return Err(format!("lookup of {tok:?} at arity {a:?} gave {g:?}, named are {c:?}")); }
        if a.is_none() && O::lookup_all(tok) != c { return Err(format!("all operators named {tok:?}: {:?}, should be {c:?}", O::lookup_all(tok))); }
    }
    Ok(())
}
fn dress(rng: &mut Rng, t: &str) -> String {
    match rng.u8(0..9) {
        0 => t.to_uppercase(),
        1 => t.to_lowercase(),
        2 => format!(" {t}\t"),
        3 => format!("\u{a0}{t}\n"),
        4 => t.chars().map(|c| if rng.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        5 if rng.u8(0..3) == 0 => format!("{t}x"),
        _ => t.to_string(),
    }
}
fn tokens<O: OperatorSet>() -> Vec<(u8, String)> {
    let mut v = vec![];
    for a in 1..=O::MAX_ARITY {
        for &id in O::ops_with_arity(a) {
            let m = O::meta(OpId { arity: a, id }).unwrap();
            for t in [Some(m.name), Some(m.display), m.infix].into_iter().flatten() { v.push((a, t.to_string())); }
        }
    }
    v
}
fn random<O: OperatorSet>(r: &Runner, rng: &mut Rng, all: &[(u8, String)], which: &str) {
    // mostly selections that succeed or fail late: few faulty tokens among distinct good ones
    let uniq: Vec<&(u8, String)> = all.iter().filter(|(_, t)| named::<O>(None, t).len() == 1).collect();
    let faulty = rng.bool();
    let n = rng.usize(0..9);
    let d = rng.usize(1..=5);
    let mut plain_l: Vec<String> = vec![];
    let mut by: [Vec<String>; 3] = Default::default();
    let mut ops: Vec<Vec<OpId>> = vec![];
    for _ in 0..n {
        let (_, t) = uniq[rng.usize(0..uniq.len())];
        let c = named::<O>(None, t);
        if (ops.contains(&c) || c[0].arity as usize > d) && !(faulty && rng.u8(0..4) == 0) { continue; }
        ops.push(c);
        plain_l.push(dress(rng, t));
    }
    if faulty && rng.bool() { let x = all[rng.usize(0..all.len())].1.clone(); let at = rng.usize(0..=plain_l.len()); plain_l.insert(at, dress(rng, &x)); }
    let mut used: Vec<Vec<OpId>> = vec![];
    for _ in 0..n {
        let (a, t) = &all[rng.usize(0..all.len())];
        let at = if faulty && rng.u8(0..5) == 0 { rng.u8(1..4) } else { *a };
        if at > 3 || (at as usize > d && !faulty) { continue; }
        let c = named::<O>(Some(at), t);
        if (c.len() != 1 || used.contains(&c)) && !(faulty && rng.u8(0..4) == 0) { continue; }
        used.push(c);
        by[at as usize - 1].push(dress(rng, t));
    }
    let p: Vec<&str> = plain_l.iter().map(|s| s.as_str()).collect();
    let l: [Vec<&str>; 3] = std::array::from_fn(|i| by[i].iter().map(|s| s.as_str()).collect());
    r.case("names", &(which, d, &p), || format!("{which}: names {p:?} with arities up to {d}"), || match d { 1 => plain::<1, O>(&p), 2 => plain::<2, O>(&p), 3 => plain::<3, O>(&p), 4 => plain::<4, O>(&p), _ => plain::<5, O>(&p) });
    r.case("lists", &(which, d, &l), || format!("{which}: lists {l:?} with arities up to {d}"), || match d { 1 => lists::<1, O>(&l), 2 => lists::<2, O>(&l), 3 => lists::<3, O>(&l), 4 => lists::<4, O>(&l), _ => lists::<5, O>(&l) });
    if let Some(t) = plain_l.last() { r.case("token", &(which, t), || format!("{which}: token {t:?}"), || single::<O>(t)); }
}

fn main() {
    let r = Runner::new(
        "one evaluation = one list of tokens (or one token) resolved against an operator set, compared with an independent reading of the set's \
         metadata; distinct = distinct (set, tokens, arity limit)",
    );
    let (ts, tb) = (tokens::<Syms>(), tokens::<BOps>());
    for (a, t) in &ts {
        r.case("token", &("syms", a, t), || format!("syms: token {t:?}"), || single::<Syms>(t));
        for (_, u) in &ts { r.case("names", &("syms2", t, u), || format!("syms: names [{t:?}, {u:?}]"), || plain::<5, Syms>(&[t, u]).and_then(|_| plain::<2, Syms>(&[t, u]))); }
    }
    for (a, t) in &tb {
        r.case("token", &("builtin", a, t), || format!("builtin: token {t:?}"), || single::<BOps>(t));
        for (_, u) in &tb { r.case("names", &("builtin2", t, u), || format!("builtin: names [{t:?}, {u:?}]"), || plain::<3, BOps>(&[t, u])); }
    }
    for t in ["", " ", "-", "+", "nothing", "ſin", "K", "add add"] {
        r.case("token", &("odd", t), || format!("token {t:?}"), || single::<BOps>(t).and_then(|_| single::<Syms>(t)));
    }
    r.case("names", &"empty", || "no names".into(), || plain::<3, BOps>(&[]).and_then(|_| lists::<3, BOps>(&Default::default())));
    // the builder appends in order
    r.case("builder", &0, || "builder".into(), || {
        use harness::de::operator_enum::builtin;
        let o = Operators::<3>::builder::<BOps>().unary::<builtin::Sin>().binary::<builtin::Pow>().sr_default_binary().unary::<builtin::Cos>().build();
        let id = |a: u8, n: &str| named::<BOps>(Some(a), n)[0];
        let w = [vec![id(1, "sin"), id(1, "cos")], vec![id(2, "pow"), id(2, "add"), id(2, "sub"), id(2, "mul"), id(2, "div")], vec![]];
        if o.ops_by_arity.iter().zip(&w).all(|(a, b)| a == b) { Ok(()) } else { Err(format!("builder gave {o:?}")) }
    });
    let mut rng = r.rng("p30");
    while r.time_left() {
        random::<Syms>(&r, &mut rng, &ts, "syms");
        random::<BOps>(&r, &mut rng, &tb, "builtin");
    }
    r.finish();
}
