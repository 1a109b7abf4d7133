//! Shared machinery of the bounded replay harness: runner, reference trees, generators, operator sets.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod search;
pub use dynamic_expressions as de;
use dynamic_expressions::expression::PostfixExpr;
use dynamic_expressions::node::PNode;
pub use fastrand::Rng;
pub use ndarray;
pub use symbolic_regression as sr;

// ------------------------------------------------------------------ runner

#[derive(Default)]
struct Shared {
    evals: u64,
    distinct: HashSet<u64>,
    groups: BTreeMap<String, u64>,
    samples: Vec<String>,
    failures: Vec<(String, String, String)>,
}

pub struct Runner {
    pub thorough: bool,
    pub extended: bool,
    pub seed: u64,
    out: String,
    start: Instant,
    budget: Duration,
    sh: Arc<Mutex<Shared>>,
    cur: Arc<Mutex<String>>,
    cur_t: Arc<AtomicU64>,
    done: Arc<AtomicBool>,
    rule: String,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_out(path: &str, sh: &Shared, rule: &str, wall: f64) {
    let samples: Vec<String> = sh.samples.iter().map(|s| esc(s)).collect();
    let fails: Vec<String> = sh
        .failures
        .iter()
        .map(|(k, d, m)| format!("{{\"class\":{},\"input\":{},\"message\":{}}}", esc(k), esc(d), esc(m)))
        .collect();
    let groups: Vec<String> = sh.groups.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let s = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"rule\":{},\"groups\":{{{}}},\"samples\":[{}],\"failures\":[{}],\"wall_s\":{:.3}}}\n",
        sh.evals,
        sh.distinct.len(),
        esc(rule),
        groups.join(","),
        samples.join(","),
        fails.join(","),
        wall
    );
    std::fs::write(path, s).expect("write result");
}

impl Runner {
    /// args: --out FILE [--thorough] [--extended] [--seed N]
    pub fn new(rule: &str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        let thorough = args.iter().any(|a| a == "--thorough");
        let extended = args.iter().any(|a| a == "--extended");
        let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let out = get("--out").expect("--out FILE");
        let secs = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough {
            150.0
        } else if extended {
            40.0
        } else {
            12.0
        });
        std::panic::set_hook(Box::new(|i| {
            if GUARD.with(|g| g.get()) == 0 {
                eprintln!("panic outside a case: {i}");
            }
        }));
        let sh = Arc::new(Mutex::new(Shared::default()));
        let cur = Arc::new(Mutex::new(String::new()));
        let cur_t = Arc::new(AtomicU64::new(0));
        let done = Arc::new(AtomicBool::new(false));
        let start = Instant::now();
        {
            let (sh, cur, cur_t, done, out, rule) =
                (sh.clone(), cur.clone(), cur_t.clone(), done.clone(), out.clone(), rule.to_string());
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(Ordering::SeqCst) {
                    return;
                }
                let t = cur_t.load(Ordering::SeqCst);
                let now = start.elapsed().as_millis() as u64;
                if t != 0 && now > t + 60_000 {
                    let d = cur.lock().map(|c| c.clone()).unwrap_or_default();
                    if let Ok(mut g) = sh.lock() {
                        g.failures.push((
                            "no-termination".into(),
                            d,
                            "the call did not return within 60 s".into(),
                        ));
                        write_out(&out, &g, &rule, start.elapsed().as_secs_f64());
                    }
                    std::process::exit(0);
                }
            });
        }
        Runner {
            thorough,
            extended,
            seed,
            out,
            start,
            budget: Duration::from_secs_f64(secs),
            sh,
            cur,
            cur_t,
            done,
            rule: rule.to_string(),
        }
    }

    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget && self.sh.lock().unwrap().failures.len() < 8
    }

    /// fraction of the whole budget that has been used
    pub fn used(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }

    pub fn rng(&self, group: &str) -> Rng {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        group.hash(&mut h);
        Rng::with_seed(h.finish() ^ self.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15))
    }

    /// Run one case. `key` identifies the input (for distinctness); `desc` describes it for replay.
    pub fn case<K: Hash>(
        &self,
        group: &str,
        key: &K,
        desc: impl Fn() -> String,
        f: impl FnOnce() -> Result<(), String>,
    ) -> bool {
        let d: String;
        {
            let mut g = self.sh.lock().unwrap();
            g.evals += 1;
            let n = g.groups.entry(group.to_string()).or_insert(0);
            *n += 1;
            let first = *n <= 2;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            group.hash(&mut h);
            key.hash(&mut h);
            g.distinct.insert(h.finish());
            if first {
                let mut s = format!("{group}: {}", desc());
                if s.len() > 400 {
                    let mut k = 400;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                }
                g.samples.push(s);
            }
        }
        {
            d = desc();
            let mut c = self.cur.lock().unwrap();
            c.clear();
            c.push_str(&d);
        }
        self.cur_t.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        GUARD.with(|g| g.set(g.get() + 1));
        let r = catch_unwind(AssertUnwindSafe(f));
        GUARD.with(|g| g.set(g.get() - 1));
        self.cur_t.store(0, Ordering::SeqCst);
        let msg = match r {
            Ok(Ok(())) => return true,
            Ok(Err(m)) => m,
            Err(p) => format!("unexpected panic: {}", panic_text(&p)),
        };
        let mut g = self.sh.lock().unwrap();
        if g.failures.len() < 40 {
            g.failures.push((group.to_string(), d, msg));
        }
        false
    }

    pub fn finish(self) {
        self.done.store(true, Ordering::SeqCst);
        let g = self.sh.lock().unwrap();
        write_out(&self.out, &g, &self.rule, self.start.elapsed().as_secs_f64());
        for (k, d, m) in g.failures.iter().take(5) {
            println!("FAIL [{k}] {m}\n   input: {d}");
        }
        println!(
            "evaluations={} distinct={} failures={}",
            g.evals,
            g.distinct.len(),
            g.failures.len()
        );
        drop(g);
        std::process::exit(0);
    }
}

thread_local! {
    static GUARD: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs `f`; Ok(value) or Err(panic text).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&p));
    GUARD.with(|g| g.set(g.get() - 1));
    r
}

// ------------------------------------------------------------------ reference trees

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tree {
    Var(u16),
    Const(u16),
    Op(u8, u16, Vec<Tree>),
}

impl Tree {
    pub fn flatten(&self, out: &mut Vec<PNode>) {
        match self {
            Tree::Var(f) => out.push(PNode::Var { feature: *f }),
            Tree::Const(c) => out.push(PNode::Const { idx: *c }),
            Tree::Op(a, op, ch) => {
                for c in ch {
                    c.flatten(out);
                }
                out.push(PNode::Op { arity: *a, op: *op });
            }
        }
    }
    pub fn nodes(&self) -> Vec<PNode> {
        let mut v = Vec::new();
        self.flatten(&mut v);
        v
    }
    pub fn size(&self) -> usize {
        match self {
            Tree::Op(_, _, ch) => 1 + ch.iter().map(|c| c.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Op(_, _, ch) => 1 + ch.iter().map(|c| c.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
}

/// The tree a postfix node list denotes, if it denotes one (operators of arity >= 1).
pub fn parse(nodes: &[PNode]) -> Option<Tree> {
    let mut st: Vec<Tree> = Vec::new();
    for n in nodes {
        match *n {
            PNode::Var { feature } => st.push(Tree::Var(feature)),
            PNode::Const { idx } => st.push(Tree::Const(idx)),
            PNode::Op { arity, op } => {
                let a = arity as usize;
                if a == 0 || st.len() < a {
                    return None;
                }
                let ch = st.split_off(st.len() - a);
                st.push(Tree::Op(arity, op, ch));
            }
        }
    }
    if st.len() == 1 {
        st.pop()
    } else {
        None
    }
}

/// a tree that keeps `depth` intermediate results alive at once: op(small, op(small, ...))
pub fn gen_comb(rng: &mut Rng, depth: usize, fam: &Family, nf: usize, nc: usize) -> Tree {
    let mut t = gen_tree(rng, 1, fam, nf, nc);
    for _ in 0..depth {
        let small = Tree::Op(1, fam[0][rng.usize(0..fam[0].len())], vec![gen_tree(rng, 1, fam, nf, nc)]);
        t = Tree::Op(2, fam[1][rng.usize(0..fam[1].len())], vec![small, t]);
    }
    t
}
/// An operator family: for each arity 1.. the ids available.
pub type Family = Vec<Vec<u16>>;

pub fn gen_tree(rng: &mut Rng, size: usize, fam: &Family, nf: usize, nc: usize) -> Tree {
    // choose an arity that fits
    let ok: Vec<usize> = (1..=fam.len())
        .filter(|&a| !fam[a - 1].is_empty() && size >= a + 1)
        .collect();
    if size <= 1 || ok.is_empty() {
        let leaf_var = nf > 0 && (nc == 0 || rng.bool());
        return if leaf_var {
            Tree::Var(rng.u16(0..nf as u16))
        } else {
            Tree::Const(rng.u16(0..nc as u16))
        };
    }
    let a = ok[rng.usize(0..ok.len())];
    let op = fam[a - 1][rng.usize(0..fam[a - 1].len())];
    let mut sizes = vec![1usize; a];
    for _ in 0..(size - 1 - a) {
        let k = rng.usize(0..a);
        // biased so that both lopsided and bushy shapes occur
        let k = if rng.u8(0..3) == 0 { 0 } else { k };
        sizes[k] += 1;
    }
    if rng.bool() {
        sizes.reverse();
    }
    let ch = sizes.iter().map(|&s| gen_tree(rng, s, fam, nf, nc)).collect();
    Tree::Op(a as u8, op, ch)
}

/// All trees with exactly `size` nodes over the given leaves and operators.
pub fn all_trees(size: usize, leaves: &[Tree], fam: &Family) -> Vec<Tree> {
    if size == 0 {
        return vec![];
    }
    if size == 1 {
        return leaves.to_vec();
    }
    let mut out = Vec::new();
    for a in 1..=fam.len() {
        for &op in &fam[a - 1] {
            if size < a + 1 {
                continue;
            }
            for forest in all_forests(size - 1, a, leaves, fam) {
                out.push(Tree::Op(a as u8, op, forest));
            }
        }
    }
    out
}

fn all_forests(total: usize, k: usize, leaves: &[Tree], fam: &Family) -> Vec<Vec<Tree>> {
    if k == 0 {
        return if total == 0 { vec![vec![]] } else { vec![] };
    }
    let mut out = Vec::new();
    for s in 1..=(total.saturating_sub(k - 1)) {
        let firsts = all_trees(s, leaves, fam);
        let rests = all_forests(total - s, k - 1, leaves, fam);
        for f in &firsts {
            for r in &rests {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

pub fn expr_of<Ops, const D: usize>(nodes: Vec<PNode>, consts: Vec<f64>) -> PostfixExpr<f64, Ops, D> {
    PostfixExpr::new(nodes, consts, Default::default())
}

pub fn close(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    let d = (a - b).abs();
    d <= 1e-9 * a.abs().max(b.abs()) || d <= 1e-300
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

pub fn same_bits(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
}

// ------------------------------------------------------------------ operator sets

pub const P: f64 = 10007.0;
fn md(x: f64) -> f64 {
    x.rem_euclid(P)
}

dynamic_expressions::custom_opset! {
    pub struct ModOps<f64> {
        1 {
            u_a { eval: |a: &[f64; 1]| md(3.0 * a[0] + 1.0), partial: |a: &[f64; 1], i: usize| md(5.0 * a[0] + 2.0 + i as f64), }
            u_b { eval: |a: &[f64; 1]| md(a[0] * a[0] + 5.0), partial: |a: &[f64; 1], i: usize| md(2.0 * a[0] + 1.0 + i as f64), }
        }
        2 {
            b_a { eval: |a: &[f64; 2]| md(7.0 * a[0] + 11.0 * a[1] + 2.0), partial: |a: &[f64; 2], i: usize| md(a[i] * 3.0 + a[1 - i] + 13.0 * i as f64 + 1.0), }
            b_b { eval: |a: &[f64; 2]| md(a[0] * a[1] + 3.0 * a[0]), partial: |a: &[f64; 2], i: usize| if i == 0 { md(a[1] + 3.0) } else { a[0] }, }
        }
        3 {
            t_a { eval: |a: &[f64; 3]| md(2.0 * a[0] + 3.0 * a[1] + 5.0 * a[2] + 9.0), partial: |a: &[f64; 3], i: usize| md([2.0, 3.0, 5.0][i] + a[(i + 1) % 3]), }
            t_b { eval: |a: &[f64; 3]| md(a[0] * a[1] + 17.0 * a[2]), partial: |a: &[f64; 3], i: usize| match i { 0 => a[1], 1 => a[0], _ => 17.0 }, }
        }
        4 {
            q_a { eval: |a: &[f64; 4]| md(a[0] + 2.0 * a[1] + 4.0 * a[2] + 8.0 * a[3]), partial: |a: &[f64; 4], i: usize| md((1 << i) as f64 + a[3 - i]), }
        }
    }
}

pub fn mod_family() -> Family {
    vec![vec![0, 1], vec![0, 1], vec![0, 1], vec![0]]
}

pub fn mod_eval(arity: u8, op: u16, a: &[f64]) -> f64 {
    match (arity, op) {
        (1, 0) => md(3.0 * a[0] + 1.0),
        (1, 1) => md(a[0] * a[0] + 5.0),
        (2, 0) => md(7.0 * a[0] + 11.0 * a[1] + 2.0),
        (2, 1) => md(a[0] * a[1] + 3.0 * a[0]),
        (3, 0) => md(2.0 * a[0] + 3.0 * a[1] + 5.0 * a[2] + 9.0),
        (3, 1) => md(a[0] * a[1] + 17.0 * a[2]),
        (4, 0) => md(a[0] + 2.0 * a[1] + 4.0 * a[2] + 8.0 * a[3]),
        _ => unreachable!(),
    }
}

pub fn mod_partial(arity: u8, op: u16, a: &[f64], i: usize) -> f64 {
    match (arity, op) {
        (1, 0) => md(5.0 * a[0] + 2.0 + i as f64),
        (1, 1) => md(2.0 * a[0] + 1.0 + i as f64),
        (2, 0) => md(a[i] * 3.0 + a[1 - i] + 13.0 * i as f64 + 1.0),
        (2, 1) => {
            if i == 0 {
                md(a[1] + 3.0)
            } else {
                a[0]
            }
        }
        (3, 0) => md([2.0, 3.0, 5.0][i] + a[(i + 1) % 3]),
        (3, 1) => match i {
            0 => a[1],
            1 => a[0],
            _ => 17.0,
        },
        (4, 0) => md((1 << i) as f64 + a[3 - i]),
        _ => unreachable!(),
    }
}

pub type BOps = dynamic_expressions::operator_enum::presets::BuiltinOpsF64;

pub fn builtin_family() -> Family {
    use dynamic_expressions::OperatorSet;
    (1..=3u8).map(|a| BOps::ops_with_arity(a).to_vec()).collect()
}

/// Reference meaning of every built-in operator, by its declared name.
pub fn builtin_ref(name: &str, a: &[f64]) -> f64 {
    match name {
        "cos" => a[0].cos(),
        "sin" => a[0].sin(),
        "tan" => a[0].tan(),
        "asin" => a[0].asin(),
        "acos" => a[0].acos(),
        "atan" => a[0].atan(),
        "sinh" => a[0].sinh(),
        "cosh" => a[0].cosh(),
        "tanh" => a[0].tanh(),
        "asinh" => a[0].asinh(),
        "acosh" => a[0].acosh(),
        "atanh" => a[0].atanh(),
        "sec" => 1.0 / a[0].cos(),
        "csc" => 1.0 / a[0].sin(),
        "cot" => 1.0 / a[0].tan(),
        "exp" => a[0].exp(),
        "exp2" => a[0].exp2(),
        "expm1" => a[0].exp_m1(),
        "log" => a[0].ln(),
        "log2" => a[0].log2(),
        "log10" => a[0].log10(),
        "log1p" => a[0].ln_1p(),
        "sqrt" => a[0].sqrt(),
        "cbrt" => a[0].cbrt(),
        "abs" => a[0].abs(),
        "abs2" => a[0] * a[0],
        "inv" => 1.0 / a[0],
        "sign" => a[0].signum(),
        "identity" => a[0],
        "neg" => -a[0],
        "add" => a[0] + a[1],
        "sub" => a[0] - a[1],
        "mul" => a[0] * a[1],
        "div" => a[0] / a[1],
        "pow" => a[0].powf(a[1]),
        "atan2" => a[0].atan2(a[1]),
        "min" => a[0].min(a[1]),
        "max" => a[0].max(a[1]),
        "fma" => a[0].mul_add(a[1], a[2]),
        "clamp" => {
            let (x, lo, hi) = (a[0], a[1], a[2]);
            if lo <= hi {
                x.clamp(lo, hi)
            } else if x < lo {
                lo
            } else if x > hi {
                hi
            } else {
                x
            }
        }
        _ => panic!("no reference for operator {name}"),
    }
}

pub fn builtin_eval(arity: u8, op: u16, a: &[f64]) -> f64 {
    use dynamic_expressions::OperatorSet;
    builtin_ref(BOps::name(dynamic_expressions::OpId { arity, id: op }), a)
}

/// Per-row reference evaluation; `fin` is cleared when any operator result or a root constant is non-finite.
pub fn ref_eval(
    t: &Tree,
    x: &ndarray::Array2<f64>,
    consts: &[f64],
    row: usize,
    ev: &dyn Fn(u8, u16, &[f64]) -> f64,
    fin: &mut bool,
) -> f64 {
    match t {
        Tree::Var(f) => x[(*f as usize, row)],
        Tree::Const(c) => consts[*c as usize],
        Tree::Op(a, op, ch) => {
            let vs: Vec<f64> = ch.iter().map(|c| ref_eval(c, x, consts, row, ev, fin)).collect();
            let v = ev(*a, *op, &vs);
            if !v.is_finite() {
                *fin = false;
            }
            v
        }
    }
}

pub fn gen_x(rng: &mut Rng, nf: usize, nr: usize, special: bool) -> ndarray::Array2<f64> {
    let mut v = Vec::with_capacity(nf * nr);
    for _ in 0..nf * nr {
        v.push(gen_val(rng, special));
    }
    ndarray::Array2::from_shape_vec((nf, nr), v).unwrap()
}

pub fn gen_val(rng: &mut Rng, special: bool) -> f64 {
    if special {
        match rng.u8(0..24) {
            0 => return f64::NAN,
            1 => return f64::INFINITY,
            2 => return f64::NEG_INFINITY,
            3 => return 0.0,
            4 => return -0.0,
            5 => return 1e308,
            6 => return 1.0,
            7 => return -1.0,
            _ => {}
        }
    }
    (rng.f64() - 0.5) * 6.0
}

pub fn gen_mod_val(rng: &mut Rng) -> f64 {
    rng.u32(0..10007) as f64
}

/// Reference partial derivative of every built-in operator (analytic), by declared name.
pub fn builtin_pref(name: &str, a: &[f64], i: usize) -> f64 {
    let x = a[0];
    if a.iter().any(|v| v.is_nan()) {
        return f64::NAN;
    }
    match name {
        "cos" => -x.sin(),
        "sin" => x.cos(),
        "tan" => 1.0 / (x.cos() * x.cos()),
        "asin" => 1.0 / (1.0 - x * x).sqrt(),
        "acos" => -1.0 / (1.0 - x * x).sqrt(),
        "atan" => 1.0 / (1.0 + x * x),
        "sinh" => x.cosh(),
        "cosh" => x.sinh(),
        "tanh" => 1.0 - x.tanh() * x.tanh(),
        "asinh" => 1.0 / (x * x + 1.0).sqrt(),
        "acosh" => 1.0 / ((x - 1.0).sqrt() * (x + 1.0).sqrt()),
        "atanh" => 1.0 / (1.0 - x * x),
        "sec" => x.tan() / x.cos(),
        "csc" => -1.0 / (x.tan() * x.sin()),
        "cot" => -1.0 / (x.sin() * x.sin()),
        "exp" => x.exp(),
        "exp2" => x.exp2() * std::f64::consts::LN_2,
        "expm1" => x.exp(),
        "log" => 1.0 / x,
        "log2" => 1.0 / (x * std::f64::consts::LN_2),
        "log10" => 1.0 / (x * std::f64::consts::LN_10),
        "log1p" => 1.0 / (1.0 + x),
        "sqrt" => 0.5 / x.sqrt(),
        "cbrt" => 1.0 / (3.0 * x.cbrt() * x.cbrt()),
        "abs" => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { f64::NAN },
        "abs2" => 2.0 * x,
        "inv" => -1.0 / (x * x),
        "sign" => 0.0,
        "identity" => 1.0,
        "neg" => -1.0,
        "add" => 1.0,
        "sub" => if i == 0 { 1.0 } else { -1.0 },
        "mul" => a[1 - i],
        "div" => if i == 0 { 1.0 / a[1] } else { -a[0] / (a[1] * a[1]) },
        "pow" => if i == 0 && a[1] == 0.0 || i == 1 && a[0] == 0.0 && a[1] > 0.0 { 0.0 } else if i == 0 { a[1] * a[0].powf(a[1] - 1.0) } else { a[0].powf(a[1]) * a[0].ln() },
        "atan2" => {
            let d = a[0] * a[0] + a[1] * a[1];
            if i == 0 { a[1] / d } else { -a[0] / d }
        }
        "min" => if a[0] == a[1] { f64::NAN } else if (a[0] < a[1]) == (i == 0) { 1.0 } else { 0.0 },
        "max" => if a[0] == a[1] { f64::NAN } else if (a[0] > a[1]) == (i == 0) { 1.0 } else { 0.0 },
        "fma" => match i { 0 => a[1], 1 => a[0], _ => 1.0 },
        "clamp" => {
            let (x, lo, hi) = (a[0], a[1], a[2]);
            if !(lo < hi) || x == lo || x == hi {
                f64::NAN
            } else if x < lo {
                [0.0, 1.0, 0.0][i]
            } else if x > hi {
                [0.0, 0.0, 1.0][i]
            } else {
                [1.0, 0.0, 0.0][i]
            }
        }
        _ => panic!("no reference derivative for operator {name}"),
    }
}

/// The partial derivative the operator itself declares.
pub fn builtin_partial(arity: u8, op: u16, a: &[f64], i: usize) -> f64 {
    use dynamic_expressions::operator_enum::builtin as b;
    use dynamic_expressions::traits::Operator;
    use dynamic_expressions::OperatorSet;
    match BOps::name(dynamic_expressions::OpId { arity, id: op }) {
        "abs" => <b::Abs as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "abs2" => <b::Abs2 as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "acos" => <b::Acos as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "acosh" => <b::Acosh as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "asin" => <b::Asin as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "asinh" => <b::Asinh as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "atan" => <b::Atan as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "atanh" => <b::Atanh as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "cbrt" => <b::Cbrt as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "cos" => <b::Cos as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "cosh" => <b::Cosh as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "cot" => <b::Cot as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "csc" => <b::Csc as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "exp" => <b::Exp as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "exp2" => <b::Exp2 as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "expm1" => <b::Expm1 as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "identity" => <b::Identity as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "inv" => <b::Inv as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "log" => <b::Log as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "log1p" => <b::Log1p as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "log2" => <b::Log2 as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "log10" => <b::Log10 as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "neg" => <b::Neg as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "sec" => <b::Sec as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "sign" => <b::Sign as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "sin" => <b::Sin as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "sinh" => <b::Sinh as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "sqrt" => <b::Sqrt as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "tan" => <b::Tan as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "tanh" => <b::Tanh as Operator<f64, 1>>::partial(a.try_into().unwrap(), i),
        "add" => <b::Add as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "atan2" => <b::Atan2 as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "div" => <b::Div as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "max" => <b::Max as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "min" => <b::Min as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "mul" => <b::Mul as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "pow" => <b::Pow as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "sub" => <b::Sub as Operator<f64, 2>>::partial(a.try_into().unwrap(), i),
        "clamp" => <b::Clamp as Operator<f64, 3>>::partial(a.try_into().unwrap(), i),
        "fma" => <b::Fma as Operator<f64, 3>>::partial(a.try_into().unwrap(), i),
        n => panic!("no operator type for {n}"),
    }
}

/// Which leaf is the differentiation direction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    Feature(usize),
    Constant(usize),
}

/// (value, derivative, magnitude of the summed terms); NaN derivative = undefined in the reference.
pub fn ref_diff(
    t: &Tree,
    x: &ndarray::Array2<f64>,
    consts: &[f64],
    row: usize,
    dir: Dir,
    ev: &dyn Fn(u8, u16, &[f64]) -> f64,
    pa: &dyn Fn(u8, u16, &[f64], usize) -> f64,
) -> (f64, f64, f64) {
    match t {
        Tree::Var(f) => {
            let d = if dir == Dir::Feature(*f as usize) { 1.0 } else { 0.0 };
            (x[(*f as usize, row)], d, d)
        }
        Tree::Const(c) => {
            let d = if dir == Dir::Constant(*c as usize) { 1.0 } else { 0.0 };
            (consts[*c as usize], d, d)
        }
        Tree::Op(a, op, ch) => {
            let rs: Vec<(f64, f64, f64)> = ch.iter().map(|c| ref_diff(c, x, consts, row, dir, ev, pa)).collect();
            let vs: Vec<f64> = rs.iter().map(|r| r.0).collect();
            let (mut d, mut m) = (0.0, 0.0);
            for (i, r) in rs.iter().enumerate() {
                let p = pa(*a, *op, &vs, i);
                d += p * r.1;
                m += p.abs() * r.2;
            }
            (ev(*a, *op, &vs), d, m)
        }
    }
}

/// Does the call's derivative agree with the reference one, given the magnitude of the summed terms?
pub fn der_close(got: f64, want: f64, mag: f64) -> bool {
    if !want.is_finite() || !mag.is_finite() || mag > 1e200 {
        return true; // outside the reference's domain
    }
    (got - want).abs() <= 1e-7 * mag + 1e-12
}

/// a population member with the given bookkeeping fields (expression compiled by the real crate)
pub fn member<const D: usize>(
    id: u64,
    birth: u64,
    nodes: Vec<PNode>,
    complexity: usize,
    loss: f64,
    cost: f64,
) -> sr::verif_hooks::PopMember<f64, ModOps, D> {
    let mut m = sr::verif_hooks::PopMember::from_expr(
        sr::verif_hooks::MemberId(id),
        None,
        birth,
        expr_of::<ModOps, D>(nodes, vec![0.5, 1.5, 2.5, 3.5]),
        8,
    );
    m.complexity = complexity;
    m.loss = loss;
    m.cost = cost;
    m
}

// ------------------------------------------------------------------ value trees (constants by bit pattern)

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum VTree {
    Var(u16),
    Const(u64),
    Op(u8, u16, Vec<VTree>),
}

impl VTree {
    pub fn is_leaf(&self) -> bool {
        !matches!(self, VTree::Op(..))
    }
    /// every subtree, with itself
    pub fn subtrees(&self) -> Vec<&VTree> {
        let mut out = vec![self];
        if let VTree::Op(_, _, ch) = self {
            for c in ch {
                out.extend(c.subtrees());
            }
        }
        out
    }
    /// all trees made from `self` by replacing one subtree `t` by some element of `f(t)`
    pub fn rewrites(&self, f: &dyn Fn(&VTree) -> Vec<VTree>) -> Vec<VTree> {
        let mut out = f(self);
        if let VTree::Op(a, op, ch) = self {
            for (i, c) in ch.iter().enumerate() {
                for r in c.rewrites(f) {
                    let mut ch2 = ch.clone();
                    ch2[i] = r;
                    out.push(VTree::Op(*a, *op, ch2));
                }
            }
        }
        out
    }
}

/// Value tree of a node list; an error if it is not well-formed, or an index or arity is out of range
pub fn vtree(nodes: &[PNode], consts: &[f64], nf: usize, ops: &dyn Fn(u8, u16) -> bool) -> Result<VTree, String> {
    let mut st: Vec<VTree> = Vec::new();
    for n in nodes {
        match *n {
            PNode::Var { feature } => {
                if feature as usize >= nf {
                    return Err(format!("feature {feature} of {nf}"));
                }
                st.push(VTree::Var(feature))
            }
            PNode::Const { idx } => {
                let Some(c) = consts.get(idx as usize) else {
                    return Err(format!("constant index {idx} of {}", consts.len()));
                };
                st.push(VTree::Const(c.to_bits()))
            }
            PNode::Op { arity, op } => {
                let a = arity as usize;
                if a == 0 || st.len() < a {
                    return Err(format!("not well-formed: {nodes:?}"));
                }
                if !ops(arity, op) {
                    return Err(format!("operator {op} of arity {arity} is not a configured one: {nodes:?}"));
                }
                let ch = st.split_off(st.len() - a);
                st.push(VTree::Op(arity, op, ch));
            }
        }
    }
    if st.len() == 1 {
        Ok(st.pop().unwrap())
    } else {
        Err(format!("not well-formed: {nodes:?}"))
    }
}
