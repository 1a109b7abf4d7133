=== raw
// ---- texts as byte sequences (`opt text`): what the string operations of the standard library do ----
/// decimal digits of a natural number
pub open spec fn decimal(n: nat) -> Seq<u8>
    decreases n,
{ if n < 10 { seq![(48 + n) as u8] } else { decimal(n / 10).push((48 + n % 10) as u8) } }
/// `Display`: the text a value is shown as
pub trait VxShow {
    spec fn shown(&self) -> Seq<u8>;
    fn vx_show(&self) -> (r: Vec<u8>) ensures r@ == self.shown();
}
pub fn vx_copy_text(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@,
{ let mut r = Vec::new(); let mut i: usize = 0; while i < s.len() invariant i <= s.len(), r@ == s@.take(i as int), decreases s.len() - i, { r.push(s[i]); i = i + 1; proof { assert(s@.take(i as int) =~= s@.take(i - 1).push(s@[i - 1])); } } proof { assert(s@.take(i as int) =~= s@); } r }
impl VxShow for [u8] { open spec fn shown(&self) -> Seq<u8> { self@ } fn vx_show(&self) -> (r: Vec<u8>) { vx_copy_text(self) } }
impl VxShow for Vec<u8> { open spec fn shown(&self) -> Seq<u8> { self@ } fn vx_show(&self) -> (r: Vec<u8>) { vx_copy_text(self.as_slice()) } }
impl<A: VxShow + ?Sized> VxShow for &A { open spec fn shown(&self) -> Seq<u8> { (**self).shown() } fn vx_show(&self) -> (r: Vec<u8>) { (**self).vx_show() } }
impl VxShow for u32 {
    open spec fn shown(&self) -> Seq<u8> { decimal(*self as nat) }
    fn vx_show(&self) -> (r: Vec<u8>)
        decreases *self,
    {
        if *self < 10 { let mut r = Vec::new(); r.push(48u8 + (*self as u8)); proof { assert(r@ =~= decimal(*self as nat)); } r }
        else { let q: u32 = *self / 10; let mut r = q.vx_show(); r.push(48u8 + ((*self % 10) as u8)); r }
    }
}
pub fn vx_empty_text() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty(), { Vec::new() }
pub fn vx_put(f: &mut Vec<u8>, s: &[u8])
    ensures final(f)@ == old(f)@ + s@,
{ let mut i: usize = 0; while i < s.len() invariant i <= s.len(), f@ == old(f)@ + s@.take(i as int), decreases s.len() - i, { f.push(s[i]); i = i + 1; proof { assert(s@.take(i as int) =~= s@.take(i - 1).push(s@[i - 1])); assert(f@ =~= old(f)@ + s@.take(i as int)); } } proof { assert(s@.take(i as int) =~= s@); } }
pub fn vx_put_show<S: VxShow + ?Sized>(f: &mut Vec<u8>, x: &S)
    ensures final(f)@ == old(f)@ + x.shown(),
{ let t = x.vx_show(); vx_put(f, t.as_slice()); }
/// `ts.join(sep)`
pub open spec fn join_text(ts: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8>
    decreases ts.len(),
{ if ts.len() == 0 { seq![] } else if ts.len() == 1 { ts[0] } else { join_text(ts.drop_last(), sep) + sep + ts.last() } }
pub fn vx_join(v: &Vec<&[u8]>, sep: &[u8]) -> (r: Vec<u8>)
    ensures r@ == join_text(Seq::new(v@.len(), |i: int| v@[i]@), sep@),
{
    let mut r: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    let ghost ts = Seq::new(v@.len(), |i: int| v@[i]@);
    while i < v.len()
        invariant i <= v.len(), ts == Seq::new(v@.len(), |i: int| v@[i]@), r@ == join_text(ts.take(i as int), sep@), decreases v.len() - i,
    {
        if i > 0 { vx_put(&mut r, sep); }
        vx_put(&mut r, v[i]);
        i = i + 1;
        proof { assert(ts.take(i as int).drop_last() =~= ts.take(i - 1)); assert(ts.take(i as int).last() == v@[i - 1]@); if i == 1 { assert(join_text(ts.take(0), sep@) =~= seq![]); assert(r@ =~= ts[0]); } }
    }
    proof { assert(ts.take(i as int) =~= ts); }
    r
}
/// `str::trim` (which characters count as blank is std's business; the same text always gives the same answer)
pub uninterp spec fn trimmed(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_trim(s: &[u8]) -> (r: &[u8]) ensures r@ == trimmed(s@) { unimplemented!() }
/// ASCII letters in lower case
pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn same_letters(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
/// `eq_ignore_ascii_case`
pub fn vx_same_letters(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == same_letters(a@, b@),
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> lower(#[trigger] a@[j]) == lower(b@[j]), decreases a.len() - i,
    {
        let x = if 65 <= a[i] && a[i] <= 90 { a[i] + 32 } else { a[i] };
        let y = if 65 <= b[i] && b[i] <= 90 { b[i] + 32 } else { b[i] };
        if x != y { assert(lower(a@[i as int]) != lower(b@[i as int])); return false; }
        i = i + 1;
    }
    true
}
/// equality of texts
pub fn vx_same_text(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> #[trigger] a@[j] == b@[j], decreases a.len() - i,
    { if a[i] != b[i] { return false; } i = i + 1; }
    proof { assert(a@ =~= b@); }
    true
}
