=== raw
// ---- the random source: every stream is possible ----
#[verifier::external_body]
pub struct Rng { x: u64 }
impl Rng {
    #[verifier::external_body]
    pub fn usize(&mut self, r: core::ops::Range<usize>) -> (x: usize)
        requires r.start < r.end, ensures r.start <= x < r.end,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bool(&mut self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn f64(&mut self) -> (r: Fx) ensures r.isfin(), 0real <= r.k() < 1real { unimplemented!() }
}
=== fn symbolic_regression/src/random.rs usize_range
--- ret r
--- subst Range<usize> => core::ops::Range<usize>
--- subst fastrand::Rng => Rng
--- spec
requires range.start < range.end,
ensures range.start <= r < range.end,
=== fn symbolic_regression/src/random.rs choose
--- rename choose_
--- ret r
--- subst fastrand::Rng => Rng
--- spec
ensures r is None == (values@.len() == 0), r is Some ==> exists|i: int| 0 <= i < values@.len() && #[trigger] values@[i] == *r->0,
