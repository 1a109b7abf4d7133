=== raw
pub open spec fn ones(n: int) -> Seq<real> { Seq::new(n as nat, |i: int| 1real) }
/// the row weights: those given, or one for every row
pub open spec fn wts<T: Float>(w: Option<&[T]>, n: int) -> Seq<real> { match w { Some(x) => reals(x@), None => ones(n) } }
pub open spec fn weighted(w: Seq<real>, v: Seq<real>) -> Seq<real> { Seq::new(w.len(), |i: int| w[i] * v[i]) }
/// weighted mean; zero when the weights sum to zero
pub open spec fn wmean(w: Seq<real>, v: Seq<real>) -> real { if rsum(w) == 0real { 0real } else { rsum(weighted(w, v)) / rsum(w) } }
pub proof fn rsum_push(s: Seq<real>, x: real) ensures rsum(s.push(x)) == rsum(s) + x { assert(s.push(x).drop_last() =~= s); }
pub proof fn rsum_ones(n: nat) ensures rsum(ones(n as int)) == n as real decreases n { if n > 0 { rsum_ones((n - 1) as nat); assert(ones(n as int).drop_last() =~= ones(n - 1)); } }
pub proof fn rsum_take(s: Seq<real>, k: int) requires 0 <= k < s.len() ensures rsum(s.take(k + 1)) == rsum(s.take(k)) + s[k] { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn weighted_ones(v: Seq<real>) ensures weighted(ones(v.len() as int), v) =~= v { }
pub proof fn rsum_update(s: Seq<real>, i: int, x: real) requires 0 <= i < s.len() ensures rsum(s.update(i, x)) == rsum(s) + x - s[i] decreases s.len() {
    if i == s.len() - 1 { assert(s.update(i, x).drop_last() =~= s.drop_last()); }
    else { rsum_update(s.drop_last(), i, x); assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x)); }
}
