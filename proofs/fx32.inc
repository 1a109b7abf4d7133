=== raw
/// `x as f32`: of a whole number as above; of a float nothing is known about the narrowed value
pub trait VxF32: Sized { spec fn f32_of(self) -> Fx; fn vx_f32(self) -> (r: Fx) ensures r == self.f32_of(); }
pub uninterp spec fn fx_narrow(x: Fx) -> Fx;
impl VxF32 for usize { open spec fn f32_of(self) -> Fx { fx_int(self as int) } #[verifier::external_body] fn vx_f32(self) -> (r: Fx) { unimplemented!() } }
impl VxF32 for u64 { open spec fn f32_of(self) -> Fx { fx_int(self as int) } #[verifier::external_body] fn vx_f32(self) -> (r: Fx) { unimplemented!() } }
impl VxF32 for Fx { open spec fn f32_of(self) -> Fx { fx_narrow(self) } #[verifier::external_body] fn vx_f32(self) -> (r: Fx) { unimplemented!() } }
pub fn vx_f32<X: VxF32>(x: X) -> (r: Fx) ensures r == x.f32_of() { x.vx_f32() }
