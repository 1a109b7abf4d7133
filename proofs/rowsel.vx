# web/wasm: the split data sets hold the chosen rows
=== include prelude.inc
=== include realfloat.inc
=== include rsum.inc
=== include nd.inc
=== raw
/// element access (`a[i]`, `a[(i, j)]`, `a[i] = v`)
impl<T: Copy> Array1<T> {
    #[verifier::external_body]
    pub fn vx_get(&self, i: usize) -> (r: T) requires i < self.v@.len() ensures r == self.v@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, i: usize, x: T) requires i < old(self).v@.len() ensures final(self).v@ == old(self).v@.update(i as int, x), final(self).std == old(self).std { unimplemented!() }
}
impl<T: Copy> Array2<T> {
    #[verifier::external_body]
    pub fn vx_get(&self, i: (usize, usize)) -> (r: T) requires i.0 < self.rows(), i.1 < self.cols() ensures r == self.at(i.0 as int, i.1 as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, i: (usize, usize), x: T)
        requires i.0 < old(self).rows(), i.1 < old(self).cols(),
        ensures final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(), final(self).std() == old(self).std(),
            forall|a: int, b: int| #[trigger] final(self).at(a, b) == (if a == i.0 && b == i.1 { x } else { old(self).at(a, b) }),
    { unimplemented!() }
}
impl Names {
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Names) ensures r == *self { unimplemented!() }
}
pub open spec fn in_range(ids: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]) < n }
/// the chosen rows in the chosen order
pub open spec fn chosen<T>(xo: Array2<T>, yo: Seq<T>, wo: Option<Seq<T>>, x: Array2<T>, y: Seq<T>, w: Option<Seq<T>>, ids: Seq<usize>) -> bool {
    &&& xo.rows() == x.rows() && xo.cols() == ids.len() && yo.len() == ids.len() && (wo is Some) == (w is Some) && (wo is Some ==> wo->0.len() == ids.len())
    &&& chosen_to(xo, yo, wo, x, y, w, ids, ids.len() as int)
}
pub open spec fn chosen_to<T>(xo: Array2<T>, yo: Seq<T>, wo: Option<Seq<T>>, x: Array2<T>, y: Seq<T>, w: Option<Seq<T>>, ids: Seq<usize>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> chosen_row(xo, yo, wo, x, y, w, i, #[trigger] ids[i] as int)
}
pub open spec fn chosen_row<T>(xo: Array2<T>, yo: Seq<T>, wo: Option<Seq<T>>, x: Array2<T>, y: Seq<T>, w: Option<Seq<T>>, i: int, r: int) -> bool {
    &&& forall|j: int| 0 <= j < x.rows() ==> #[trigger] xo.at(j, i) == x.at(j, r)
    &&& yo[i] == y[r]
    &&& wo is Some ==> wo->0[i] == w->0[r]
}
pub open spec fn oseq<T>(w: Option<Array1<T>>) -> Option<Seq<T>> { match w { Some(a) => Some(a.v@), None => None } }
pub open spec fn oref<T>(w: Option<&Array1<T>>) -> Option<Seq<T>> { match w { Some(a) => Some(a.v@), None => None } }
/// d holds the rows `ids` of `all`, in that order
pub open spec fn part<T: Float>(d: Dataset<T>, all: Dataset<T>, w: Option<Seq<T>>, ids: Seq<usize>) -> bool {
    d.ok() && d.n_rows == ids.len() && d.n_features == all.n_features && chosen(d.x, d.y.v@, oseq(d.weights), all.x, all.y.v@, w, ids)
}
pub proof fn copied<T: Float>(d: Dataset<T>, xo: Array2<T>, yo: Seq<T>, wo: Option<Seq<T>>, all: Dataset<T>, w: Option<Seq<T>>, ids: Seq<usize>)
    requires
        chosen(xo, yo, wo, all.x, all.y.v@, w, ids), d.ok(), d.n_rows == xo.cols(), d.n_features == xo.rows(), all.n_features == all.x.rows(),
        forall|i: int, j: int| d.x.at(i, j) == #[trigger] xo.at(i, j), d.y.v@ == yo, oseq(d.weights) == wo,
    ensures part(d, all, w, ids),
{
    assert forall|i: int| 0 <= i < ids.len() implies chosen_row(d.x, d.y.v@, oseq(d.weights), all.x, all.y.v@, w, i, #[trigger] ids[i] as int) by {
        assert(chosen_row(xo, yo, wo, all.x, all.y.v@, w, i, ids[i] as int));
        assert forall|j: int| 0 <= j < all.x.rows() implies #[trigger] d.x.at(j, i) == all.x.at(j, ids[i] as int) by { assert(xo.at(j, i) == d.x.at(j, i)); }
    }
}
=== type web/wasm/src/lib.rs WasmSplitIndices
=== type web/wasm/src/lib.rs SelectedRows
subst SelectedRows => SelectedRows<T>
subst f64 => T
=== uses dataset.vx Dataset::with_weights_and_names
=== fn web/wasm/src/lib.rs select_rows
--- subst fn select_rows => fn select_rows<T: Float>
--- subst SelectedRows => SelectedRows<T>
--- subst f64 => T
--- opt ndidx
--- ret r
--- spec
requires y.v@.len() == x.cols(), w is Some ==> w->0.v@.len() == x.cols(),
ensures
    r is Ok <==> in_range(indices@, x.cols() as int),
    r is Ok ==> chosen(r->Ok_0.0, r->Ok_0.1.v@, oseq(r->Ok_0.2), *x, y.v@, oref(w), indices@),
--- loop 0
invariant __n0 == indices@.len(), __k0 <= __n0, n_rows == x.cols(), forall|i: int| 0 <= i < __k0 ==> (#[trigger] indices@[i]) < n_rows,
decreases __n0 - __k0,
--- loop 1
invariant
    __n1 == indices@.len(), __k1 <= __n1, n_rows == x.cols(), n_features == x.rows(), in_range(indices@, n_rows as int),
    y.v@.len() == x.cols(), w is Some ==> w->0.v@.len() == x.cols(),
    xo.rows() == x.rows(), xo.cols() == indices@.len(), yo.v@.len() == indices@.len(), (wo is Some) == (w is Some), wo is Some ==> wo->0.v@.len() == indices@.len(),
    chosen_to(xo, yo.v@, oseq(wo), *x, y.v@, oref(w), indices@, __k1 as int),
decreases __n1 - __k1,
--- head 1
let ghost (x0, y0, w0) = (xo, yo.v@, oseq(wo));
--- loop 2
invariant
    __n1 == indices@.len(), 0 < __k1 <= __n1, i_new == __k1 - 1, i_old == indices@[i_new as int], __n2 == n_features, __k2 <= __n2, n_features == x.rows(), i_old < x.cols(), i_new < xo.cols(),
    xo.rows() == x.rows(), xo.cols() == indices@.len(),
    forall|j: int, i: int| 0 <= i < i_new ==> #[trigger] xo.at(j, i) == x0.at(j, i),
    forall|j: int| 0 <= j < __k2 ==> #[trigger] xo.at(j, i_new as int) == x.at(j, i_old as int),
decreases __n2 - __k2,
--- tail 1
proof {
    let k = __k1 - 1;
    assert forall|i: int| 0 <= i < __k1 implies chosen_row(xo, yo.v@, oseq(wo), *x, y.v@, oref(w), i, #[trigger] indices@[i] as int) by {
        if i < k { assert(chosen_row(x0, y0, w0, *x, y.v@, oref(w), i, indices@[i] as int)); }
    }
}
=== fn web/wasm/src/lib.rs split_train_val
--- subst fn split_train_val => fn split_train_val<T: Float>
--- subst f64 => T
--- subst &[String] => &Names
--- ret r
--- spec
requires dataset_all.ok(), weights_all is Some ==> weights_all->0.v@.len() == dataset_all.n_rows,
ensures
    r is Ok <==> in_range(split.train@, dataset_all.n_rows as int) && in_range(split.val@, dataset_all.n_rows as int),
    r is Ok ==> part(r->Ok_0.0, *dataset_all, oref(weights_all), split.train@) && r->Ok_0.0.variable_names == *variable_names,
    r is Ok ==> (r->Ok_0.1 is None) == (split.val@.len() == 0),
    r is Ok && r->Ok_0.1 is Some ==> part(r->Ok_0.1->0, *dataset_all, oref(weights_all), split.val@) && r->Ok_0.1->0.variable_names == *variable_names,
--- at before lettrain=
let ghost (tx, ty, tw) = (x_train, y_train.v@, oseq(w_train));
--- at after lettrain=
proof { copied(train, tx, ty, tw, *dataset_all, oref(weights_all), split.train@); }
--- at before letval=
let ghost (vx, vy, vw) = (x_val, y_val.v@, oseq(w_val));
--- at after letval=
proof { copied(val, vx, vy, vw, *dataset_all, oref(weights_all), split.val@); }
