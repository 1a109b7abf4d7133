//! P29: printed expressions show their tree: an independent printer, and reading the text back.
use harness::de::node::PNode;
use harness::de::strings::{default_string_variable, string_tree, StringTreeOptions};
use harness::de::*;
use harness::*;

/// A set with every kind of symbol: infix at one, two, three and five operands, display different from name and infix, unlisted operators.
struct Syms;
macro_rules! m {
    ($a:expr, $i:expr, $n:expr, $d:expr, $x:expr) => {
        OpMeta { arity: $a, id: $i, name: $n, display: $d, infix: $x, commutative: false, associative: false, complexity: 1 }
    };
}
static METAS: [OpMeta; 13] = [
    m!(1, 0, "neg", "-", Some("-")),
    m!(1, 1, "cos", "Cos", None),
    m!(1, 2, "neg2", "~~", Some("~")),
    m!(2, 0, "add", "+", Some("+")),
    m!(2, 1, "max", "max", None),
    m!(2, 2, "pow", "**", Some("^")),
    m!(2, 3, "sub", "-", Some("-")),
    m!(3, 0, "fma", "FMA", None),
    m!(3, 1, "sum3", "+3+", Some("++")),
    m!(5, 0, "sum5", "+5+", Some("+++")),
    m!(4, 0, "quad", "Quad", None),
    m!(0, 0, "one", "One", None),
    m!(0, 1, "zero", "0", Some("o")),
];
impl OperatorSet for Syms {
    type T = f64;
    const MAX_ARITY: u8 = 5;
    fn ops_with_arity(_: u8) -> &'static [u16] { &[] }
    fn meta(op: OpId) -> Option<&'static OpMeta> { METAS.iter().find(|m| m.arity == op.arity && m.id == op.id) }
    fn eval(_: OpId, _: dispatch::EvalKernelCtx<'_, '_, f64>) -> bool { unreachable!() }
    fn diff(_: OpId, _: dispatch::DiffKernelCtx<'_, '_, f64>) -> bool { unreachable!() }
    fn grad(_: OpId, _: dispatch::GradKernelCtx<'_, '_, f64>) -> bool { unreachable!() }
}

struct Names<'a> { asked: Option<&'a [String]>, own: &'a [String], pretty: bool }
impl Names<'_> {
    fn var(&self, f: u16) -> String {
        let names = match self.asked { Some(n) => n, None => self.own };
        match names.get(f as usize) { Some(n) => n.clone(), None => "x".to_string() + &f.to_string() }
    }
    fn sym<O: OperatorSet>(&self, op: OpId) -> (String, bool) {
        let Some(m) = O::meta(op) else { return ("unknown_op".into(), false) };
        let s = if self.pretty { m.display } else { m.infix.unwrap_or(m.name) };
        (s.to_string(), m.infix.is_some() && op.arity > 1)
    }
}
/// remove the pairs that enclose the whole text, one at a time
fn unwrap_text(s: &str) -> &str {
    let b = s.as_bytes();
    if b.len() < 2 || b[0] != b'(' || b[b.len() - 1] != b')' { return s; }
    let mut d = 0i64;
    for (i, c) in b.iter().enumerate() {
        d += (*c == b'(') as i64 - (*c == b')') as i64;
        if d <= 0 && i + 1 < b.len() { return s; }
    }
    if d == 0 { unwrap_text(&s[1..s.len() - 1]) } else { s }
}
fn show<O: OperatorSet>(t: &Tree, c: &[f64], n: &Names) -> String {
    match t {
        Tree::Var(f) => n.var(*f),
        Tree::Const(k) => format!("{}", c[*k as usize]),
        Tree::Op(a, o, ch) => {
            let (s, infix) = n.sym::<O>(OpId { arity: *a, id: *o });
            let mut out = String::new();
            if !infix { out += &s; }
            out.push('(');
            for (i, x) in ch.iter().enumerate() {
                let tx = show::<O>(x, c, n);
                if i > 0 { if infix { out.push(' '); out += &s; out.push(' '); } else { out += ", "; } }
                out += if infix { &tx } else { unwrap_text(&tx) };
            }
            out.push(')');
            out
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Read { Atom(String), Op(String, bool, Vec<Read>) }
fn shape<O: OperatorSet>(t: &Tree, c: &[f64], n: &Names) -> Read {
    match t {
        Tree::Op(a, o, ch) => {
            let (s, infix) = n.sym::<O>(OpId { arity: *a, id: *o });
            Read::Op(s, infix, ch.iter().map(|x| shape::<O>(x, c, n)).collect())
        }
        _ => Read::Atom(show::<O>(t, c, n)),
    }
}
struct P<'a> { s: &'a [u8], i: usize }
impl P<'_> {
    fn word(&mut self) -> String {
        let a = self.i;
        while self.i < self.s.len() && !b"(), ".contains(&self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn eat(&mut self, t: &[u8]) -> bool { if self.s[self.i..].starts_with(t) { self.i += t.len(); true } else { false } }
    fn operand(&mut self) -> Option<Read> {
        if self.eat(b"(") {
            let r = self.seq()?;
            return if self.eat(b")") { Some(r) } else { None };
        }
        let w = self.word();
        if !self.eat(b"(") { return if w.is_empty() { None } else { Some(Read::Atom(w)) }; }
        let mut ch = vec![];
        if self.eat(b")") { return Some(Read::Op(w, false, ch)); }
        loop {
            ch.push(self.seq()?);
            if self.eat(b")") { return Some(Read::Op(w, false, ch)); }
            if !self.eat(b", ") { return None; }
        }
    }
    fn seq(&mut self) -> Option<Read> {
        let mut ch = vec![self.operand()?];
        let mut sym: Option<String> = None;
        while self.eat(b" ") {
            let w = self.word();
            if sym.get_or_insert(w.clone()) != &w || !self.eat(b" ") { return None; }
            ch.push(self.operand()?);
        }
        Some(match sym { None => ch.pop().unwrap(), Some(s) => Read::Op(s, true, ch) })
    }
}

fn check<O: OperatorSet<T = f64>, const D: usize>(t: &Tree, c: &[f64], n: &Names, atomic: bool) -> Result<(), String> {
    let mut e = PostfixExpr::<f64, O, D>::new(t.nodes(), c.to_vec(), Metadata { variable_names: n.own.to_vec() });
    let want = unwrap_text(&show::<O>(t, c, n)).to_string();
    let got = string_tree(&e, StringTreeOptions { variable_names: n.asked, pretty: n.pretty });
    if got != want { return Err(format!("printed {got:?}, the tree is {want:?}")); }
    if n.asked.is_none() && !n.pretty {
        let d = format!("{e}");
        if d != want { return Err(format!("displayed as {d:?}, the tree is {want:?}")); }
    }
    if atomic {
        let mut p = P { s: got.as_bytes(), i: 0 };
        let r = p.seq();
        let s = shape::<O>(t, c, n);
        if p.i != got.len() || r.as_ref() != Some(&s) { return Err(format!("{got:?} reads back as {r:?}, the tree is {s:?}")); }
    }
    // printing does not change the expression, and only it is shown
    e.consts.push(7.25);
    let again = string_tree(&e, StringTreeOptions { variable_names: n.asked, pretty: n.pretty });
    if again != got { return Err(format!("an unused constant changed the text to {again:?}")); }
    Ok(())
}

fn main() {
    let r = Runner::new(
        "one evaluation = one expression printed with one choice of names and style, compared with an independent printer and (names without \
         punctuation) read back; distinct = distinct (tree, constants, names, style)",
    );
    let pools: Vec<(Vec<String>, bool)> = [
        (vec![], true),
        (vec!["alpha", "beta"], true),
        (vec!["a", "b", "c", "d", "e", "f", "g", "h", "i"], true),
        (vec!["x1", "x0", "x2"], true),
        (vec!["(a)", "(b)(c)", "((d)", "e)", ")(", "()"], false),
        (vec!["", "(", ")", "f(x, y)", "(x + y)", "é(ü)"], false),
    ]
    .into_iter()
    .map(|(v, ok)| (v.into_iter().map(String::from).collect(), ok))
    .collect();
    for f in [0u16, 1, 9, 10, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 65534, 65535] {
        r.case("variable", &f, || format!("variable {f}"), || {
            let names = vec!["q".to_string(); 3];
            for nm in [None, Some(&names[..]), Some(&names[..0])] {
                let want = if nm.map_or(0, |n| n.len()) > f as usize { "q".into() } else { "x".to_string() + &f.to_string() };
                let got = default_string_variable(f, nm);
                if got != want { return Err(format!("variable {f} with names {nm:?} printed {got:?}")); }
            }
            check::<Syms, 5>(&Tree::Var(f), &[], &Names { asked: None, own: &[], pretty: false }, true)
        });
    }
    // every operator over every small choice of children
    let leaves = [Tree::Var(0), Tree::Const(0), Tree::Op(2, 0, vec![Tree::Var(1), Tree::Var(0)]), Tree::Op(1, 0, vec![Tree::Var(2)]), Tree::Op(0, 0, vec![]), Tree::Op(0, 1, vec![]), Tree::Op(3, 1, vec![Tree::Var(0), Tree::Var(1), Tree::Const(0)])];
    for m in METAS.iter().map(|m| (m.arity, m.id)).chain([(1, 9), (2, 9), (3, 9)]) {
        let k = m.0 as usize;
        let total = leaves.len().pow(k.min(3) as u32);
        for code in 0..total {
            let ch: Vec<Tree> = (0..k).map(|j| leaves[(code / leaves.len().pow((j % 3) as u32)) % leaves.len()].clone()).collect();
            let t = Tree::Op(m.0, m.1, ch);
            for (asked, own) in [(None, 0usize), (Some(1), 0), (None, 1), (Some(0), 1), (Some(4), 5)] {
                for pretty in [false, true] {
                    let n = Names { asked: asked.map(|a: usize| &pools[a].0[..]), own: &pools[own].0, pretty };
                    let ok = asked.map_or(pools[own].1, |a| pools[a].1) && !pretty;
                    r.case("operators", &(&t.nodes(), asked, own, pretty), || format!("{t:?} names {:?} own {:?} pretty {pretty}", n.asked, n.own), || check::<Syms, 5>(&t, &[-1.5], &n, ok));
                }
            }
        }
    }
    // deep nests of enclosing pairs
    for d in [1usize, 2, 10, 100, 1000, 4000] {
        for (a, o) in [(1u8, 0u16), (1, 1), (2, 0), (3, 1), (3, 0)] {
            let mut t = Tree::Var(0);
            let left = d % 2 == 0;
            for _ in 0..d { let mut ch = vec![Tree::Var(1); a as usize]; let at = if left { 0 } else { a as usize - 1 }; ch[at] = t; t = Tree::Op(a, o, ch); }
            if d > 1000 && a != 2 { continue; }
            r.case("nest", &(d, a, o), || format!("{d} nested operators {a}:{o}"), || {
                std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || check::<Syms, 5>(&t, &[], &Names { asked: None, own: &[], pretty: false }, true)).unwrap().join().map_err(|_| "panicked".to_string())?)
            });
        }
    }
    let vals = [0.0, -0.0, 1.0, -1.5, 1e300, -1e-300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1, 12345678.9, f64::MIN_POSITIVE, 1e16];
    let mut rng = r.rng("p29");
    let fam: Family = vec![vec![0, 1, 2, 9], vec![0, 1, 2, 3, 9], vec![0, 1], vec![0], vec![0]];
    while r.time_left() {
        let n = 1 + if rng.u8(0..10) == 0 { rng.usize(0..150) } else { rng.usize(0..20) };
        let c: Vec<f64> = (0..4).map(|_| if rng.bool() { vals[rng.usize(0..vals.len())] } else { rng.f64() * 200.0 - 100.0 }).collect();
        let builtin = rng.u8(0..3) == 0;
        let t = gen_tree(&mut rng, n, &if builtin { builtin_family() } else { fam.clone() }, 12, 4);
        let (a, o) = (rng.usize(0..pools.len()), rng.usize(0..pools.len()));
        let asked = if rng.bool() { Some(&pools[a].0[..]) } else { None };
        let pretty = rng.bool();
        let nm = Names { asked, own: &pools[o].0, pretty };
        let ok = if asked.is_some() { pools[a].1 } else { pools[o].1 };
        let key = (&t.nodes(), bits(&c), asked, o, pretty, builtin);
        r.case("random", &key, || format!("{t:?} constants {c:?} names {asked:?} own {:?} pretty {pretty} builtin {builtin}", pools[o].0), || {
            if builtin { check::<BOps, 3>(&t, &c, &nm, ok) } else { check::<Syms, 5>(&t, &c, &nm, ok) }
        });
    }
    r.finish();
}
