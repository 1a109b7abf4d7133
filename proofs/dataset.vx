# symbolic_regression: data sets hold the rows they were given; mini-batches hold rows of the full data set
=== include prelude.inc
=== include realfloat.inc
=== include rsum.inc
=== include nd.inc
=== raw
#[verifier::external_body]
pub struct Rng { x: u64 }
impl Rng {
    #[verifier::external_body]
    pub fn usize(&mut self, r: core::ops::Range<usize>) -> (x: usize) requires r.start < r.end, ensures r.start <= x < r.end, { unimplemented!() }
}
=== fn symbolic_regression/src/random.rs usize_range
--- ret r
--- subst Range<usize> => core::ops::Range<usize>
--- subst fastrand::Rng => Rng
--- spec
requires range.start < range.end,
ensures range.start <= r < range.end,
=== raw
/// row j of the batch is row s of the full data set: features, target and weight
pub open spec fn row_is<T: Float>(b: Dataset<T>, j: int, full: Dataset<T>, s: int) -> bool {
    &&& 0 <= s < full.n_rows
    &&& forall|i: int| 0 <= i < full.n_features ==> #[trigger] b.x.at(i, j) == full.x.at(i, s)
    &&& b.y.v@[j] == full.y.v@[s]
    &&& b.weights is Some ==> b.weights->0.v@[j] == full.weights->0.v@[s]
}
pub open spec fn same_shape<T: Float>(a: Dataset<T>, b: Dataset<T>) -> bool {
    a.n_rows == b.n_rows && a.n_features == b.n_features && (a.weights is Some <==> b.weights is Some) && a.avg_y == b.avg_y && a.variable_names == b.variable_names
}
pub open spec fn mean_of(y: Seq<real>, w: Seq<real>) -> real { rsum(weighted(w, y)) / rsum(w) }
=== fn symbolic_regression/src/dataset.rs Dataset::compute_avg_y
--- ret r
--- spec
requires weights is Some ==> weights->0@.len() == y@.len(),
ensures
    y@.len() == 0 ==> r.r() == 0real,
    y@.len() > 0 && rsum(wts(weights, y@.len() as int)) != 0real ==> r.r() == mean_of(reals(y@), wts(weights, y@.len() as int)),
--- entry
proof { T::laws(); rsum_ones(y@.len()); }
let ghost wt = wts(weights, y@.len() as int);
let ghost tm = weighted(wt, reals(y@));
--- loop 0
invariant
    wt == ones(y@.len() as int), tm == weighted(wt, reals(y@)), __n0 == y@.len(), __k0 <= __n0,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    __acc0.r() == rsum(tm.take(__k0 as int)),
decreases __n0 - __k0,
--- head 0
proof { let k = __k0 - 1; rsum_take(tm, k); assert(reals(y@)[k] == y@[k].r()); assert(tm[k] == wt[k] * reals(y@)[k]); assert(wt[k] == 1real); }
--- after 0
proof { assert(tm.take(__n0 as int) =~= tm); }
--- loop 1
invariant
    wt == reals(w@), __n1 == w@.len(), __k1 <= __n1,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    __acc1.r() == rsum(wt.take(__k1 as int)),
decreases __n1 - __k1,
--- head 1
proof { let k = __k1 - 1; rsum_take(wt, k); assert(wt[k] == w@[k].r()); }
--- after 1
proof { assert(wt.take(__n1 as int) =~= wt); }
--- loop 2
invariant
    wt == reals(w@), tm == weighted(wt, reals(y@)), __n2 == y@.len() == w@.len(), __k2 <= __n2,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| (#[trigger] a.mul_spec(b)).r() == a.r() * b.r(),
    __acc2.r() == rsum(tm.take(__k2 as int)),
decreases __n2 - __k2,
--- head 2
proof { let k = __k2 - 1; rsum_take(tm, k); assert(reals(y@)[k] == y@[k].r()); assert(tm[k] == wt[k] * reals(y@)[k]); assert(wt[k] == w@[k].r()); assert(y@[k].r() * w@[k].r() == w@[k].r() * y@[k].r()) by (nonlinear_arith); }
--- after 2
proof { assert(tm.take(__n2 as int) =~= tm); }
=== fn symbolic_regression/src/dataset.rs Dataset::build_dataset
--- ret r
--- subst Vec<String> => Names
--- spec
requires y.v@.len() == x.cols(), weights is Some ==> weights->0.v@.len() == x.cols(),
ensures
    r.ok(), r.n_rows == x.cols(), r.n_features == x.rows(), forall|i: int, j: int| r.x.at(i, j) == #[trigger] x.at(i, j), r.y.v@ == y.v@,
    (r.weights is Some) == (weights is Some), weights is Some ==> r.weights->0.v@ == weights->0.v@, r.variable_names == variable_names,
    avg_y is Some ==> r.avg_y == avg_y->0,
    avg_y is None && x.cols() > 0 && rsum(row_weights(weights, x.cols() as int)) != 0real ==> r.avg_y.r() == mean_of(reals(y.v@), row_weights(weights, x.cols() as int)),
=== raw
pub open spec fn row_weights<T: Float>(w: Option<Array1<T>>, n: int) -> Seq<real> { match w { Some(x) => reals(x.v@), None => ones(n) } }
=== fn symbolic_regression/src/dataset.rs Dataset::new
--- ret r
--- subst Vec::new() => Names::new()
--- spec
requires y.v@.len() == x.cols(),
ensures r.ok(), r.n_rows == x.cols(), r.n_features == x.rows(), forall|i: int, j: int| r.x.at(i, j) == #[trigger] x.at(i, j), r.y.v@ == y.v@, r.weights is None,
=== fn symbolic_regression/src/dataset.rs Dataset::with_weights_and_names
--- ret r
--- subst Vec<String> => Names
--- spec
requires y.v@.len() == x.cols(), weights is Some ==> weights->0.v@.len() == x.cols(),
ensures
    r.ok(), r.n_rows == x.cols(), r.n_features == x.rows(), forall|i: int, j: int| r.x.at(i, j) == #[trigger] x.at(i, j), r.y.v@ == y.v@,
    (r.weights is Some) == (weights is Some), weights is Some ==> r.weights->0.v@ == weights->0.v@, r.variable_names == variable_names,
=== fn symbolic_regression/src/dataset.rs Dataset::y_slice
--- ret r
--- spec
requires self.ok(),
ensures r@ == self.y.v@,
=== fn symbolic_regression/src/dataset.rs Dataset::weights_slice
--- ret r
--- spec
requires self.ok(),
ensures (r is Some) == (self.weights is Some), r is Some ==> r->0@ == self.weights->0.v@,
=== fn symbolic_regression/src/dataset.rs Dataset::make_batch_buffer
--- ret r
--- spec
requires full.ok(), full.n_rows > 0,
ensures r.ok(), r.n_rows == (if batch_size == 0 { 1 } else { batch_size as int }), r.n_features == full.n_features, (r.weights is Some) == (full.weights is Some), r.avg_y == full.avg_y,
=== fn symbolic_regression/src/dataset.rs Dataset::resample_from
--- subst .column_mut(dst_col).assign( => .vx_assign_column(dst_col, 
--- subst self.y[ => self.y.v[
--- subst full.y[ => full.y.v[
--- subst dst[ => dst.v[
--- subst src[ => src.v[
--- spec
requires old(self).ok(), full.ok(), full.n_rows > 0, old(self).n_features == full.n_features, (old(self).weights is Some) == (full.weights is Some),
ensures
    final(self).ok(), same_shape(*final(self), *old(self)),
    exists|rows: Seq<int>| rows.len() == final(self).n_rows && forall|j: int| 0 <= j < final(self).n_rows ==> row_is(*final(self), j, *full, #[trigger] rows[j]),
--- entry
let ghost mut rows: Seq<int> = Seq::empty();
let ghost start = *self;
--- loop 0
invariant
    self.ok(), full.ok(), full.n_rows > 0, same_shape(*self, start), self.n_features == full.n_features, (self.weights is Some) == (full.weights is Some),
    __n0 == self.n_rows, __k0 <= __n0, rows.len() == __k0,
    forall|j: int| 0 <= j < __k0 ==> row_is(*self, j, *full, #[trigger] rows[j]),
decreases __n0 - __k0,
--- head 0
let ghost before = *self;
--- tail 0
proof {
    let ghost old_rows = rows;
    rows = rows.push(src_idx as int);
    assert forall|j: int| 0 <= j < __k0 implies row_is(*self, j, *full, #[trigger] rows[j]) by {
        if j < __k0 - 1 { assert(rows[j] == old_rows[j]); assert(row_is(before, j, *full, old_rows[j])); 
            assert forall|i: int| 0 <= i < full.n_features implies #[trigger] self.x.at(i, j) == full.x.at(i, rows[j]) by { assert(before.x.at(i, j) == full.x.at(i, rows[j])); }
        } else { assert(rows[j] == src_idx); }
    }
}
--- after 0
proof { assert(rows.len() == self.n_rows); }
