//! P26: the warm-up of the size limit.
use harness::sr::verif_hooks::*;
use harness::*;

const D: usize = 3;
fn run(maxsize: usize, by: f32, total: usize) -> Result<(), String> {
    let mut o: Options<f64, D> = Options::default();
    o.maxsize = maxsize;
    o.warmup_maxsize_by = by;
    let mut last = 0;
    let step = (total / 400).max(1);
    let mut done: Vec<usize> = (0..=total).step_by(step).collect();
    // the cycles around the end of the warm-up
    let edge = (by as f64 * total as f64) as usize;
    for d in edge.saturating_sub(2)..edge.saturating_add(3) { if d <= total { done.push(d); } }
    done.push(total);
    done.sort();
    for d in done {
        let cur = get_cur_maxsize(&o, total, total - d);
        if cur > maxsize { return Err(format!("limit {cur} above the maximum {maxsize} after {d} of {total} cycles")); }
        if cur < last { return Err(format!("limit fell from {last} to {cur} after {d} of {total} cycles")); }
        if d == 0 && by > 0.0 && total > 0 && cur != maxsize.min(3) { return Err(format!("limit starts at {cur}")); }
        if cur < maxsize.min(3) { return Err(format!("limit {cur} below the start")); }
        if (!(by > 0.0) || total == 0 || d as f64 / total as f64 > by as f64 * (1.0 + 1e-6)) && cur != maxsize { return Err(format!("limit {cur}, not the maximum {maxsize}, after {d} of {total} cycles with warm-up {by}")); }
        if d == total && total > 0 && by <= 1.0 && maxsize < 1 << 23 && cur != maxsize { return Err(format!("limit {cur} at the end of the search, maximum {maxsize}, warm-up {by}")); }
        // no more than the proportional share, up to rounding
        if by > 0.0 && total > 0 && d as f64 / total as f64 <= by as f64 {
            let want = maxsize.min(3) as f64 + (maxsize - maxsize.min(3)) as f64 * (d as f64 / total as f64) / by as f64;
            if (cur as f64) > want + 1e-3 * want + 1e-6 || (cur as f64) < want - 1.0 - 1e-3 * want { return Err(format!("limit {cur} after {d} of {total} cycles, proportional share {want}")); }
        }
        last = cur;
    }
    // a count of remaining cycles above the total is the start
    let c = get_cur_maxsize(&o, total, total.saturating_add(7));
    if by > 0.0 && total > 0 && c != maxsize.min(3) { return Err(format!("limit {c} before the start")); }
    Ok(())
}
fn main() {
    let r = Runner::new("one evaluation = one setting (maximum, warm-up fraction, total cycles) followed over its cycles; distinct = distinct settings");
    let bys = [0.0f32, -1.0, 0.1, 0.3, 0.5, 0.9, 1.0, 1.5, 1e-6, f32::NAN];
    for m in 0..=40usize { for t in [0usize, 1, 2, 3, 7, 10, 33, 100] { for by in bys {
        r.case("exhaustive", &(m, t, by.to_bits()), || format!("maximum {m}, warm-up {by}, {t} cycles"), || run(m, by, t));
    } } }
    let mut rng = r.rng("p26");
    while r.time_left() {
        let hi = [50, 5000, 1_000_000, usize::MAX][rng.usize(0..4)];
        let top = [5000, 5000, 70_000, 3_000_000, 100_000_000, usize::MAX][rng.usize(0..6)];
        let m = if top == usize::MAX { top >> rng.u32(0..41) } else { rng.usize(0..top) };
        let (m, t, by) = (m, rng.usize(0..hi), if rng.bool() { rng.f32() } else { bys[rng.usize(0..bys.len())] });
        r.case("random", &(m, t, by.to_bits()), || format!("maximum {m}, warm-up {by}, {t} cycles"), || run(m, by, t));
    }
    r.finish();
}
