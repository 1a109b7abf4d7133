=== raw
// ---- fixed prelude (helpers the desugarings expand to) ----
// A panic site.  The obligation is the `assert(<condition>)` spliced in front of each call.
#[verifier::external_body]
pub fn vx_panic() -> ! { panic!() }

pub fn vx_min_usize(a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { a } else { b }),
{ if a < b { a } else { b } }

pub fn vx_sub_or_zero(a: usize, b: usize) -> (r: usize)
    ensures r == (if a > b { (a - b) as int } else { 0 }),
{ if a > b { a - b } else { 0 } }

pub fn vx_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r.len() == n, forall|i: int| 0 <= i < n ==> r[i] == x,
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v.len() == i, forall|j: int| 0 <= j < i ==> v[j] == x,
        decreases n - i,
    { v.push(x); i = i + 1; }
    v
}
// `chunks(c)` of a slice of length len: number of pieces and the bounds of piece k
pub open spec fn chunk_cnt(len: int, c: int) -> int { if c <= 0 { 0 } else if len % c == 0 { len / c } else { len / c + 1 } }
pub fn vx_nchunks(len: usize, c: usize) -> (r: usize)
    requires c > 0,
    ensures r == chunk_cnt(len as int, c as int), forall|k: int| #![trigger k * c] 0 <= k < r ==> k * c < len,
        len == 0 ==> r == 0, forall|m: int| #![trigger m * c] 0 <= m && len == m * c ==> r == m,
{
    let q = len / c;
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len as int, c as int);
        assert forall|k: int| #![trigger k * c] 0 <= k < chunk_cnt(len as int, c as int) implies k * c < len by {
            assert(q * c == c * q) by (nonlinear_arith);
            if k < q { assert(k * c + c <= q * c) by (nonlinear_arith) requires k + 1 <= q, c > 0; }
        }
        assert forall|m: int| #![trigger m * c] 0 <= m && len == m * c implies chunk_cnt(len as int, c as int) == m by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(len as int, c as int, m, 0);
        }
        assert(q < usize::MAX || c == 1) by (nonlinear_arith) requires q == len / c, c > 0, len <= usize::MAX;
    }
    if len % c == 0 { q } else { q + 1 }
}
pub fn vx_chunk_lo(len: usize, c: usize, k: usize) -> (r: usize)
    requires k * c < len, ensures r == k * c,
{ k * c }
pub fn vx_chunk_hi(len: usize, c: usize, k: usize) -> (r: usize)
    requires k * c < len, ensures r == (if len - k * c < c { len as int } else { k * c + c }),
{ if len - k * c < c { len } else { k * c + c } }
/// `&mut v[lo..hi]` (Vec operands are dereferenced to slices first)
pub fn vx_range_mut<T>(v: &mut [T], lo: usize, hi: usize) -> (r: &mut [T])
    requires lo <= hi <= old(v)@.len(),
    ensures r@ == old(v)@.subrange(lo as int, hi as int), final(r)@.len() == hi - lo ==> final(v)@ == old(v)@.take(lo as int) + final(r)@ + old(v)@.skip(hi as int),
{ let x = &mut v[lo..hi]; x }
/// `v[lo..hi].to_vec()`
#[verifier::external_body]
pub fn vx_sub_to_vec<T: Copy>(v: &[T], lo: usize, hi: usize) -> (r: Vec<T>)
    requires lo <= hi <= v@.len(), ensures r@ == v@.subrange(lo as int, hi as int),
{ v[lo..hi].to_vec() }
/// a formatted message
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
/// arbitrary truth value, used by the vacuity run only
pub uninterp spec fn vx_nd(n: int) -> bool;
/// `x.try_into()` between integer types
pub trait VxTry: Sized { spec fn fits(x: usize) -> bool; spec fn as_int(self) -> int;
    fn vx_try(x: usize) -> (r: Option<Self>) ensures r is Some == Self::fits(x), r is Some ==> (r->0).as_int() == x; }
impl VxTry for u16 { open spec fn fits(x: usize) -> bool { x <= 65535 } open spec fn as_int(self) -> int { self as int }
    fn vx_try(x: usize) -> (r: Option<u16>) { if x <= 65535 { Some(x as u16) } else { None } } }
/// `usize::try_from(x)`
pub fn vx_usize_try(x: isize) -> (r: Result<usize, ()>)
    ensures r is Ok == (x >= 0), r matches Ok(v) ==> v == x,
{ if x >= 0 { Ok(x as usize) } else { Err(()) } }
/// `v.extend_from_slice(&x[lo..hi])`
pub fn vx_extend<T: Copy>(v: &mut Vec<T>, x: &[T], lo: usize, hi: usize)
    requires lo <= hi <= x@.len(), ensures final(v)@ == old(v)@ + x@.subrange(lo as int, hi as int),
{
    let mut i: usize = lo;
    proof { assert(x@.subrange(lo as int, lo as int) =~= Seq::<T>::empty()); assert(v@ + Seq::<T>::empty() =~= v@); }
    while i < hi
        invariant lo <= i <= hi <= x@.len(), v@ == old(v)@ + x@.subrange(lo as int, i as int),
        decreases hi - i,
    { v.push(x[i]); proof { assert(x@.subrange(lo as int, i + 1) =~= x@.subrange(lo as int, i as int).push(x[i as int])); assert(old(v)@ + x@.subrange(lo as int, i + 1) =~= (old(v)@ + x@.subrange(lo as int, i as int)).push(x[i as int])); } i = i + 1; }
}
/// `x.splice(lo..hi, v)`, the removed elements dropped (std: they are replaced by the items of v)
#[verifier::external_body]
pub fn vx_splice<T: Copy>(x: &mut Vec<T>, lo: usize, hi: usize, v: Vec<T>)
    requires lo <= hi <= old(x)@.len(), ensures final(x)@ == old(x)@.take(lo as int) + v@ + old(x)@.skip(hi as int),
{ x.splice(lo..hi, v); }
