=== raw
// ---- ndarray: trusted model of the few operations used (rows x cols, row-major when in standard layout) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ArrayView2<'a, T> { x: &'a [T] }
impl<'a, T> Clone for ArrayView2<'a, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a, T> Copy for ArrayView2<'a, T> {}
impl<'a, T> ArrayView2<'a, T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn std(&self) -> bool;
    /// the elements in row-major order
    pub uninterp spec fn data(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize) ensures r == self.cols() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_standard_layout(&self) -> (r: bool) ensures r == self.std() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&'a [T]>)
        ensures r is Some <==> self.std(), r is Some ==> r->0@ == self.data() && self.data().len() == self.rows() * self.cols()
    { unimplemented!() }
}
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn std(&self) -> bool;
    pub uninterp spec fn data(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize) ensures r == self.cols() { unimplemented!() }
    #[verifier::external_body]
    pub fn zeros(shape: (usize, usize)) -> (r: Self)
        ensures r.rows() == shape.0, r.cols() == shape.1, r.std()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice_mut(&mut self) -> (r: Option<&mut [T]>)
        ensures
            r is Some <==> old(self).std(),
            r is Some ==> r->0@ == old(self).data() && old(self).data().len() == old(self).rows() * old(self).cols()
                && final(self).data() == final(r->0)@ && final(self).rows() == old(self).rows() && final(self).cols() == old(self).cols() && final(self).std(),
            r is None ==> *final(self) == *old(self),
    { unimplemented!() }
}
