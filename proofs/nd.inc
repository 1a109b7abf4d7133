=== raw
// ---- ndarray: owned one- and two-dimensional arrays (trusted model; `std` = the elements lie contiguously in order) ----
pub struct Array1<T> { pub v: Vec<T>, pub std: Ghost<bool> }
impl<T> Array1<T> {
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&[T]>) ensures r is Some <==> self.std@, r is Some ==> r->0@ == self.v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_standard_layout(&self) -> (r: Array1<T>) ensures r.std@, r.v@ == self.v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Array1<T>) ensures r.std@ == self.std@, r.v@ == self.v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Array1<T>) ensures r == self { unimplemented!() }
}
impl<T: Float> Array1<T> {
    #[verifier::external_body]
    pub fn zeros(n: usize) -> (r: Array1<T>) ensures r.std@, r.v@.len() == n { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Column<'a, T> { x: &'a Array2<T> }
impl<'a, T> Column<'a, T> { pub uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn std(&self) -> bool;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
    #[verifier::external_body]
    pub fn dim(&self) -> (r: (usize, usize)) ensures r.0 == self.rows(), r.1 == self.cols() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_standard_layout(&self) -> (r: Array2<T>) ensures r.std(), r.rows() == self.rows(), r.cols() == self.cols(), forall|i: int, j: int| r.at(i, j) == #[trigger] self.at(i, j) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Array2<T>) ensures r.std() == self.std(), r.rows() == self.rows(), r.cols() == self.cols(), forall|i: int, j: int| r.at(i, j) == #[trigger] self.at(i, j) { unimplemented!() }
    #[verifier::external_body]
    pub fn column(&self, j: usize) -> (r: Column<'_, T>) requires j < self.cols() ensures r@ == Seq::new(self.rows(), |i: int| self.at(i, j as int)) { unimplemented!() }
    /// `self.column_mut(j).assign(c)`
    #[verifier::external_body]
    pub fn vx_assign_column(&mut self, j: usize, c: &Column<'_, T>)
        requires j < old(self).cols(), c@.len() == old(self).rows(),
        ensures final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(), final(self).std() == old(self).std(),
            forall|i: int, k: int| #[trigger] final(self).at(i, k) == (if k == j && 0 <= i < c@.len() { c@[i] } else { old(self).at(i, k) }),
    { unimplemented!() }
}
impl<T: Float> Array2<T> {
    #[verifier::external_body]
    pub fn zeros(shape: (usize, usize)) -> (r: Self) ensures r.rows() == shape.0, r.cols() == shape.1, r.std() { unimplemented!() }
}
/// `Vec<String>` of variable names: carried along only
#[verifier::external_body]
pub struct Names { x: Vec<u8> }
impl Names {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Names) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> Names { unimplemented!() }
}
=== type symbolic_regression/src/dataset.rs Dataset
subst Vec<String> => Names
=== raw
impl<T: Float> Dataset<T> {
    pub open spec fn ok(&self) -> bool {
        &&& self.x.rows() == self.n_features && self.x.cols() == self.n_rows && self.x.std()
        &&& self.y.v@.len() == self.n_rows && self.y.std@
        &&& self.weights is Some ==> self.weights->0.v@.len() == self.n_rows && self.weights->0.std@
    }
}
