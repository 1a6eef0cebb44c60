//@ raw
#![allow(unused)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;
//@ include iters.vrs
//@ include limbs.vrs
//@ raw
}
use pre::*;
broadcast use {pre::axiom_vec_len, pre::axiom_slice_len, pre::val_len1, pre::shl_ge1};
//@ gsub .iter() => .viter()
//@ gsub iter::repeat(0) => VRepeat { x: 0 }
//@ gsub iter::repeat( => vrepeat(
//@ gsub iter::empty() => vempty()
//@ gsub iter::once( => vonce(
//@ raw
// ---------------------------------------------------------------------------------------------
// Memory model boundary (assumed contracts; the memory subsystem has its own properties).
// ---------------------------------------------------------------------------------------------
pub trait FlexibleArrayHeader: Sized {
    spec fn slen(&self) -> int;
    fn len(&self) -> (r: usize) ensures r == self.slen();
}
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(H)]
pub struct FlexibleArray<I, H: FlexibleArrayHeader> { pub header: H, pub data: Vec<I> }
impl<I, H: FlexibleArrayHeader> FlexibleArray<I, H> {
    pub uninterp spec fn sitems(&self) -> Seq<I>;
    #[verifier::external_body]
    pub fn items(&self) -> (r: &[I]) ensures r@ == self.sitems(), r@.len() == self.header.slen() { &self.data }
}
pub trait Dealloc: Sized {}
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct MutRef<T, D> { pub t: T, pub d: D }
impl<T, D> MutRef<T, D> { pub uninterp spec fn res(&self) -> T; }
pub struct FlexibleArrayConstructor<H: FlexibleArrayHeader, I: VIter> { pub header: H, pub items: I }
impl<H: FlexibleArrayHeader, I: VIter> FlexibleArrayConstructor<H, I> {
    pub fn new(header: H, items: I) -> (r: Self) ensures r.header == header, r.items == items { FlexibleArrayConstructor { header, items } }
}
pub trait Manager: Sized + Copy {
    type Dealloc: Dealloc;
    fn new<H: FlexibleArrayHeader, I: VIter>(self, c: FlexibleArrayConstructor<H, I>) -> (r: MutRef<FlexibleArray<I::Item, H>, Self::Dealloc>)
        requires c.items.inv(), c.items.inf() || c.items.n() >= c.header.slen(),
        ensures r.res().header == c.header, r.res().sitems().len() == c.header.slen(),
            forall|i: int| 0 <= i < c.header.slen() ==> r.res().sitems()[i] == #[trigger] c.items.at(i);
}
pub assume_specification[ <Ordering as PartialEq>::eq ](x: &Ordering, y: &Ordering) -> (r: bool) ensures r == (*x == *y);
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), (forall|x: T, y: T| #[trigger] cloned(x, y) ==> x == y) ==> r@ == s@;
pub assume_specification[ isize::unsigned_abs ](x: isize) -> (r: usize)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

// the mathematical integer a bigint denotes, and its canonical form
pub open spec fn bi(x: JsBigint) -> int { if x.header.len < 0 { -val(x.sitems()) } else { val(x.sitems()) } }
pub open spec fn wf(x: JsBigint) -> bool { norm(x.sitems()) && x.sitems().len() == x.header.slen() }
pub open spec fn sgn(s: Sign) -> int { match s { Sign::Positive => 1, Sign::Negative => -1 } }
pub open spec fn sg(s: Sign, n: int) -> int { match s { Sign::Positive => n, Sign::Negative => -n } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn signs(x: JsBigint) -> bool { (x.header.len < 0 <==> bi(x) < 0) && (x.header.len > 0 <==> bi(x) > 0) && (x.header.len == 0 <==> bi(x) == 0) && iabs(bi(x)) == val(x.sitems()) && val(x.sitems()) >= 0 }
pub open spec fn trig(s: Seq<u64>) -> bool { true }
pub proof fn wf_ops(x: JsBigint, y: JsBigint) requires wf(x), wf(y)
  ensures
    val(x.sitems()) > val(y.sitems()) ==> x.sitems().len() >= y.sitems().len(),
    val(y.sitems()) > val(x.sitems()) ==> y.sitems().len() >= x.sitems().len(),
    val(x.sitems()) == val(y.sitems()) ==> x.sitems() == y.sitems(),
    signs(x), signs(y)
{
    wf_sign(x); wf_sign(y);
    if x.sitems().len() < y.sitems().len() { val_len_lt(x.sitems(), y.sitems()); }
    if y.sitems().len() < x.sitems().len() { val_len_lt(y.sitems(), x.sitems()); }
    if val(x.sitems()) == val(y.sitems()) { val_inj(x.sitems(), y.sitems()); }
}
pub proof fn wf_sign(x: JsBigint) requires wf(x) ensures signs(x)
{ if x.sitems().len() > 0 { val_norm_lo(x.sitems()); } val_bound(x.sitems()); }
//@ file nanvm-lib/src/common/default.rs
//@ fn default
  ensures T::default.ensures((), res)
//@ file nanvm-lib/src/js/js_bigint.rs
//@ gsub #[derive(Debug, PartialEq, Clone, Copy, Eq)] => #[derive(PartialEq, Clone, Copy, Eq)]
//@ gsub ExactSizeIterator => VExact
//@ gsub impl IntoIterator<IntoIter = I> => impl VInto<I = I>
//@ gsub .into_iter() => .vinto()
//@ gsub .extend( => .vextend(
//@ gsub (0..=len - 1).rev() => vrange_inc(0, len - 1).rev()
//@ gsub impl Iterator<Item = (u64, u64)> + 'a => VZip<VCopied<'a, u64>, VChain<VCopied<'a, u64>, VRepeat<u64>>>
//@ raw
#[derive(PartialEq, Clone, Copy, Eq, Structural)]
//@ item enum Sign
//@ item struct JsBigintHeader
//@ item struct TwosComplement
//@ item type JsBigint
//@ item type JsBigintMutRef
//@ fn <FlexibleArrayHeader for JsBigintHeader>::len
//@ members
    open spec fn slen(&self) -> int { if self.len < 0 { -(self.len as int) } else { self.len as int } }
//@ fn JsBigint::header_len
  ensures res == self.header.len
//@ fn JsBigint::sign
  ensures sgn(res) == (if self.header.len < 0 { -1int } else { 1 })
//@ fn TwosComplement::repeat
  ensures res == (if self.sign == Sign::Negative { u64::MAX } else { 0 })
//@ fn Sign::opposite
  ensures sgn(res) == -sgn(self)
//@ fn new_bigint
  requires i.fin(), i.vseq().len() <= isize::MAX
  ensures res.res().sitems() == i.vseq(), res.res().header.len == sg(sign, i.vseq().len() as int), res.res().sitems().len() == res.res().header.slen()
//@ tail
  let ghost it0 = items;
  proof {
    let n = i.vseq().len() as int;
    assert(n * sgn(sign) == (if sign == Sign::Positive { n } else { -n })) by(nonlinear_arith);
    assert forall|s: Seq<u64>| s.len() == n && (forall|k: int| 0 <= k < n ==> s[k] == #[trigger] it0.at(k)) implies #[trigger] trig(s) && s == i.vseq() by {
       assert forall|k: int| 0 <= k < n implies s[k] == i.vseq()[k] by { assert(iseq(it0)[k] == it0.at(k)); }
       assert(s =~= i.vseq()); }
  }
//@ fn zero
  ensures wf(res.res()), bi(res.res()) == 0
//@ fn from_u64
  ensures wf(res.res()), bi(res.res()) == sg(sign, n as int)
//@ tail
  proof { val_single(n); }
//@ fn is_zero
  ensures res == (value.sitems().len() == 0)
//@ fn normalize_vec
  ensures norm(res@), val(res@) == val(vec@), res@.len() <= vec@.len(), norm(vec@) ==> res@ == vec@
//@ start
  let ghost v0 = vec@;
//@ loop 0
  invariant vec@.len() <= v0.len(), val(vec@) == val(v0), norm(v0) ==> vec@ == v0
  ensures norm(vec@)
  decreases vec@.len()
//@ loop 0 start
  proof { val_pop0(vec@); assert(vec@.drop_last() == vec@.take(vec@.len() - 1)); }
//@ fn cmp_vec
  requires norm(lhs@), norm(rhs@)
  ensures
    res == Ordering::Less <==> val(lhs@) < val(rhs@),
    res == Ordering::Greater <==> val(lhs@) > val(rhs@),
    res == Ordering::Equal <==> lhs@ == rhs@,
    res == Ordering::Equal <==> val(lhs@) == val(rhs@),
//@ start
  proof {
    if lhs@.len() < rhs@.len() { val_len_lt(lhs@, rhs@); }
    if rhs@.len() < lhs@.len() { val_len_lt(rhs@, lhs@); }
  }
//@ loop 0
  lhs@.len() == rhs@.len(), vst0.n() == lhs@.len(), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == (lhs@[lhs@.len() - 1 - i], rhs@[rhs@.len() - 1 - i]),
  forall|i: int| lhs@.len() - vk0 <= i < lhs@.len() ==> lhs@[i] == rhs@[i],
//@ loop 0 start
  proof {
    let j = lhs@.len() - vk0;
    assert(vst0.at(vk0 - 1) == (lhs@[j], rhs@[j]));
    if lhs@[j] < rhs@[j] { vpre_top_lt(lhs@, rhs@, j, lhs@.len() as int); }
    if rhs@[j] < lhs@[j] { vpre_top_lt(rhs@, lhs@, j, lhs@.len() as int); }
  }
//@ loop 0 after
  proof { assert(lhs@ =~= rhs@); }
//@ fn add_vec
  ensures val(res@) == val(lhs@) + val(rhs@), norm(lhs@) && norm(rhs@) ==> norm(res@)
//@ trunc
//@ loop 0
  vst0.n() == (if rhs@.len() > lhs@.len() { rhs@.len() } else { lhs@.len() }), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> (#[trigger] vst0.at(i)).0 + vst0.at(i).1 == limb(lhs@, i) + limb(rhs@, i),
  value@.len() == vk0, 0 <= carry <= 1, vk0 <= vst0.n(),
  val(value@) + carry * bp(vk0) == vpre(lhs@, vk0) + vpre(rhs@, vk0),
//@ loop 0 start
  let ghost (c0, v0) = (carry as int, value@);
//@ loop 0 end
  proof {
    let k = vk0 - 1;
    let s = limb(lhs@, k) + limb(rhs@, k) + c0;
    lemma_split128(next);
    val_push(v0, value@[k]);
    assert(value@ =~= v0.push(value@[k]));
    add_step(val(v0), c0, bp(k), vpre(lhs@, k), vpre(rhs@, k), limb(lhs@, k), limb(rhs@, k), value@[k] as int, carry as int);
  }
//@ loop 0 after
  let ghost vw = value@;
  proof {
    let n = vst0.n();
    vpre_ext(lhs@, n); vpre_ext(rhs@, n);
    val_push(value@, carry as u64);
    val_bound(lhs@); val_bound(rhs@);
    if norm(lhs@) && norm(rhs@) {
      if lhs@.len() > 0 { val_norm_lo(lhs@); }
      if rhs@.len() > 0 { val_norm_lo(rhs@); }
      if carry == 0 { norm_from_val(value@); }
    }
  }
//@ fn sub_vec_norm
  requires val(rhs@) <= val(lhs@), rhs@.len() <= lhs@.len(),
  ensures val(res@) == val(lhs@) - val(rhs@), norm(res@)
//@ fn sub_vec
  requires val(rhs@) <= val(lhs@), rhs@.len() <= lhs@.len(),
  ensures val(res@) == val(lhs@) - val(rhs@), res@.len() == lhs@.len()
//@ trunc
//@ loop 0
  vst0.n() == lhs@.len(), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == (limb(lhs@, i) as u64, limb(rhs@, i) as u64),
  value@.len() == vk0, 0 <= borrow <= 1, vk0 <= vst0.n(),
  val(value@) - borrow * bp(vk0) == vpre(lhs@, vk0) - vpre(rhs@, vk0),
//@ loop 0 start
  let ghost (c0, v0) = (borrow as int, value@);
//@ loop 0 end
  proof {
    let k = vk0 - 1;
    lemma_split_i128(next);
    val_push(v0, value@[k]);
    assert(value@ =~= v0.push(value@[k]));
    sub_step(val(v0), c0, bp(k), vpre(lhs@, k), vpre(rhs@, k), limb(lhs@, k), limb(rhs@, k), value@[k] as int, borrow as int);
  }
//@ loop 0 after
  proof {
    let n = vst0.n();
    vpre_ext(lhs@, n); vpre_ext(rhs@, n);
    val_bound(value@);
    assert(borrow == 0) by(nonlinear_arith) requires val(value@) - borrow * bp(n) >= 0, val(value@) < bp(n), 0 <= borrow <= 1;
  }
//@ fn add
  requires wf(*lhs), wf(*rhs)
  ensures wf(res.res()), bi(res.res()) == bi(*lhs) + bi(*rhs)
//@ start
  proof { wf_ops(*lhs, *rhs); }
//@ fn sub
  requires wf(*lhs), wf(*rhs)
  ensures wf(res.res()), bi(res.res()) == bi(*lhs) - bi(*rhs)
//@ start
  proof { wf_ops(*lhs, *rhs); }
//@ fn negative
  requires wf(*value)
  ensures wf(res.res()), bi(res.res()) == -bi(*value)
//@ start
  proof { wf_sign(*value); }
//@ fn JsBigint::compare
  requires wf(*self), wf(*other)
  ensures
    res == Ordering::Less <==> bi(*self) < bi(*other),
    res == Ordering::Greater <==> bi(*self) > bi(*other),
    res == Ordering::Equal <==> bi(*self) == bi(*other),
//@ start
  proof { wf_ops(*self, *other); }
//@ fn equals
  requires wf(*lhs), wf(*rhs)
  ensures res <==> bi(*lhs) == bi(*rhs)
//@ start
  proof { wf_ops(*lhs, *rhs); }
//@ fn JsBigint::get_last_bit
  requires wf(*self)
  ensures res == iabs(bi(*self)) % 2
//@ start
  proof { wf_sign(*self); if self.sitems().len() > 0 { val_parity(self.sitems()); let x = self.sitems()[0]; assert(x & 1 == x % 2) by(bit_vector); } }
//@ file nanvm-lib/src/common/vec.rs
//@ fn new_resize
  ensures res@.len() == size, exists|d: T| #[trigger] T::default.ensures((), d) && forall|i: int| 0 <= i < size ==> cloned(d, #[trigger] res@[i])
//@ file nanvm-lib/src/js/js_bigint.rs
//@ fn not
  requires wf(*value)
  ensures wf(res.res()), bi(res.res()) == -bi(*value) - 1
//@ start
  proof { wf_sign(*value); val_single(1); if value.sitems().len() > 0 { val_norm_lo(value.sitems()); } }
//@ fn add_to_vec
  requires index < vec@.len(), add <= PM(), val(vec@) + add * bp(index as int) < bp(vec@.len() as int)
  ensures res@.len() == vec@.len(), val(res@) == val(vec@) + add * bp(index as int)
  decreases vec@.len() - index
//@ trunc
//@ start
  let ghost v0 = vec@;
//@ before if carry > 0
  proof {
    lemma_split128(sum);
    val_update(v0, index as int, vec@[index as int]);
    let p = bp(index as int);
    let (x, o, c, a) = (vec@[index as int] as int, v0[index as int] as int, carry as int, add as int);
    assert((x - o) * p + c * (BB() * p) == a * p) by(nonlinear_arith) requires o + a == x + BB() * c;
    if c > 0 {
      val_bound(vec@); bp_pos(index + 1);
      assert(c * bp(index + 1) >= bp(index + 1)) by(nonlinear_arith) requires c >= 1, bp(index + 1) >= 1;
      if index + 1 >= v0.len() { bp_mono(v0.len() as int, index + 1); }
      
    } else { assert(c * (BB() * p) == 0) by(nonlinear_arith) requires c == 0; }
  }
//@ fn mul_vec
  requires lhs@.len() > 0, rhs@.len() > 0
  ensures norm(res@), val(res@) == val(lhs@) * val(rhs@)
//@ loop 0
  invariant
    lhs@.len() > 0, rhs@.len() > 0, lhs@.len() <= MAXLIMBS(), rhs@.len() <= MAXLIMBS(),
    lhs_max == lhs@.len() - 1, rhs_max == rhs@.len() - 1, total_max == lhs_max + rhs_max + 1,
    vec@.len() == total_max + 1, i <= total_max,
    val(vec@) == conv(lhs@, rhs@, i as int),
  decreases total_max - i
//@ loop 0 before
  proof { val_zeros(vec@, vec@.len() as int); }
//@ loop 0 after
  proof { conv_total(lhs@, rhs@); }
//@ loop 1
  invariant
    lhs@.len() > 0, rhs@.len() > 0, lhs@.len() <= MAXLIMBS(), rhs@.len() <= MAXLIMBS(),
    lhs_max == lhs@.len() - 1, rhs_max == rhs@.len() - 1, total_max == lhs_max + rhs_max + 1,
    vec@.len() == total_max + 1, i < total_max,
    max == (if i < lhs_max { i } else { lhs_max }), j <= max + 1, i - j <= rhs_max,
    val(vec@) == conv(lhs@, rhs@, i as int) + dsum(lhs@, rhs@, j as int, i as int) * bp(i as int),
  decreases max + 1 - j
//@ loop 1 before
  proof { dsum_zero_lo(lhs@, rhs@, j as int, i as int); assert(0 * bp(i as int) == 0); }
//@ loop 1 start
  proof { mul_room(lhs@, rhs@, i as int, j as int); }
//@ loop 1 after
  proof { if i >= lhs_max { dsum_zero_hi(lhs@, rhs@, i + 1, i as int); dsum_zero_hi(lhs@, rhs@, j as int, i as int); } }
//@ fn mul
  requires wf(*lhs), wf(*rhs)
  ensures wf(res.res()), bi(res.res()) == bi(*lhs) * bi(*rhs)
//@ start
  proof { wf_ops(*lhs, *rhs); sign_mul(bi(*lhs), bi(*rhs)); }
//@ fn div_mod
  requires wf(*lhs), wf(*rhs), bi(*rhs) != 0
  ensures wf(res.0.res()), wf(res.1.res()),
    // the quotient truncates toward zero
    iabs(bi(res.0.res())) == iabs(bi(*lhs)) / iabs(bi(*rhs)),
    bi(res.0.res()) != 0 ==> ((bi(res.0.res()) < 0) <==> ((bi(*lhs) < 0) != (bi(*rhs) < 0))),
    // the remainder is what is left, except for the two known findings (whose outcome is pinned exactly)
    !kf_small(bi(*lhs), bi(*rhs)) ==> iabs(bi(res.1.res())) == iabs(bi(*lhs)) % iabs(bi(*rhs)),
    kf_small(bi(*lhs), bi(*rhs)) ==> iabs(bi(res.1.res())) == iabs(bi(*rhs)),
    bi(res.1.res()) != 0 && !kf_sign(bi(*lhs), bi(*rhs)) ==> ((bi(res.1.res()) < 0) <==> (bi(*lhs) < 0)),
    bi(res.1.res()) != 0 && kf_sign(bi(*lhs), bi(*rhs)) ==> ((bi(res.1.res()) < 0) <==> (bi(*lhs) >= 0)),
//@ trunc
//@ start
  proof {
    wf_ops(*lhs, *rhs);
    let (x, y) = (iabs(bi(*lhs)), iabs(bi(*rhs)));
    if x < y { euclid(x, y, 0, x); } else if x == y { euclid(x, y, 1, 0); }
  }
//@ loop 0
  invariant
    wf(*lhs), wf(*rhs), b@ == rhs.sitems(), b@.len() > 0, norm(a@), norm(result@),
    val(b@) == iabs(bi(*rhs)), val(b@) > 0, val(a@) >= 0,
    val(result@) * val(b@) + val(a@) == iabs(bi(*lhs)),
    sgn(sign) == 1 <==> (bi(*lhs) < 0) == (bi(*rhs) < 0),
    !kf_small(bi(*lhs), bi(*rhs)),
  decreases val(a@)
//@ loop 0 start
  let ghost (a0, r0) = (a@, result@);
  proof {
    val_zero(a@); val_zero(result@); val_bound(result@); val_bound(a@);
    if val(a@) < val(b@) { euclid(iabs(bi(*lhs)), val(b@), val(result@), val(a@)); } else { len_le(b@, a@); top1(a@); if a@.len() > 1 { top2(a@); } }
  }
//@ before let (q_index, q_digit)
  proof {
    shl64(a_high);
    let (na, nb) = (a@.len() - 1, b@.len() - 1);
    let (ah, bh) = (a@[na] as int, b@[nb] as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(ah, bh + 1);
    if na > 0 {
      let h = ah * BB() + a@[na - 1];
      vstd::arithmetic::div_mod::lemma_fundamental_div_mod(h, bh + 1);
      let d = h / (bh + 1);
      if ah <= bh && na > nb {
        assert(1 <= d < BB()) by(nonlinear_arith) requires h == (bh + 1) * d + h % (bh + 1), 0 <= h % (bh + 1) < bh + 1, h >= BB(), h < (bh + 1) * BB(), 0 <= bh < BB();
        assert(d * (bh + 1) <= h) by(nonlinear_arith) requires h == (bh + 1) * d + h % (bh + 1), 0 <= h % (bh + 1);
        est(a@, b@, h, na - 1, d, na - nb - 1);
      }
    }
    if bh < ah {
      let d = ah / (bh + 1);
      assert(1 <= d) by(nonlinear_arith) requires ah == (bh + 1) * d + ah % (bh + 1), 0 <= ah % (bh + 1) < bh + 1, ah >= bh + 1;
      assert(d * (bh + 1) <= ah) by(nonlinear_arith) requires ah == (bh + 1) * d + ah % (bh + 1), 0 <= ah % (bh + 1);
      est(a@, b@, ah, na, d, na - nb);
    }
    assert((1 * bp(0)) * val(b@) == val(b@)) by(nonlinear_arith) requires bp(0) == 1;
  }
//@ after let mut q = new_resize
  proof {
    // whatever the digit, it must not over-estimate
    assert(q_digit >= 1);
    assert((q_digit * bp(q_index as int)) * val(b@) <= val(a@));
  }
//@ before let m = mul_vec
  proof { val_unit(q@, q_digit); val_norm_lo(q@); }
//@ after let m = mul_vec
  proof {
    assert(val(m@) <= val(a@)) by { let (x, y) = (val(q@), val(b@)); assert(x * y == y * x) by(nonlinear_arith); }
    len_le(m@, a@);
    let (x, y, z) = (val(result@), val(q@), val(b@));
    assert((x + y) * z == x * z + y * z) by(nonlinear_arith);
    assert(y * z >= 1) by(nonlinear_arith) requires y >= 1, z >= 1;
    assert(y * z == z * y) by(nonlinear_arith);
  }
//@ raw
pub open spec fn kf_small(l: int, r: int) -> bool { iabs(l) < iabs(r) }
pub open spec fn kf_sign(l: int, r: int) -> bool { r < 0 }
pub proof fn sign_mul(a: int, b: int)
  ensures iabs(a) * iabs(b) == iabs(a * b), a * b < 0 <==> (a < 0 && b > 0) || (a > 0 && b < 0), a * b == 0 <==> (a == 0 || b == 0)
{
  assert(iabs(a) * iabs(b) == iabs(a * b) && (a * b < 0 <==> (a < 0 && b > 0) || (a > 0 && b < 0)) && (a * b == 0 <==> (a == 0 || b == 0))) by(nonlinear_arith);
}
//@ fn pow_u64
  requires wf(*lhs)
  ensures wf(res.res()), bi(res.res()) == ipow(bi(*lhs), rhs as int)
//@ attr #[verifier::loop_isolation(false)]
//@ start
  let ghost (e0, x) = (rhs as int, iabs(bi(*lhs)));
  proof {
    wf_sign(*lhs); assert(rhs & 1 == rhs % 2) by(bit_vector); val_single(1);
    assert(1 * ipow(x, e0) == ipow(x, e0)); ipow_neg(x, e0);
    if x > 0 { ipow_pos(x, e0); } else if e0 > 0 { ipow_zero(e0); }
  }
//@ loop 0
  invariant
    norm(res@), norm(b@), val(res@) >= 1, val(b@) >= 1,
    val(res@) * ipow(val(b@), rhs as int) == ipow(x, e0),
    sg(sign, ipow(x, e0)) == ipow(bi(*lhs), e0), ipow(x, e0) >= 1,
  decreases rhs
//@ loop 0 start
  proof {
    let (r, bb) = (rhs, val(b@));
    assert(r & 1 == r % 2 && r >> 1 == r / 2) by(bit_vector);
    val_zero(res@); val_zero(b@);
    assert(val(res@) * 1 == val(res@));
    ipow_sq(bb, r as int / 2);
    if r % 2 == 1 { ipow_step(bb, r as int - 1); let (v, q) = (val(res@), ipow(bb, r as int - 1)); assert(v * (bb * q) == (v * bb) * q) by(nonlinear_arith); assert(v * bb >= 1 && bb * v == v * bb) by(nonlinear_arith) requires v >= 1, bb >= 1; }
    assert(bb * bb >= 1) by(nonlinear_arith) requires bb >= 1;
  }
//@ before return new_bigint
  proof { assert(ipow(val(b@), 0) == 1); val_bound(res@); val_zero(res@); let v = val(res@); assert(v * 1 == v); assert(v == ipow(x, e0)); assert(sg(sign, v) == ipow(bi(*lhs), e0)); 
 assert(res@.len() > 0);}
//@ fn pow
  requires wf(*lhs), wf(*rhs), bi(*rhs) >= 0, iabs(bi(*lhs)) > 1 ==> bi(*rhs) < BB()
  ensures wf(res.res()), bi(res.res()) == ipow(bi(*lhs), bi(*rhs))
//@ start
  proof {
    wf_ops(*lhs, *rhs); let k = bi(*rhs);
    assert(bp(0) == 1); assert(bp(1) == BB()); ipow_one(k); ipow_neg(1, k); if k > 0 { ipow_zero(k); }
    if rhs.sitems().len() > 1 { val_norm_lo(rhs.sitems()); bp_mono(1, rhs.sitems().len() - 1); }
    if lhs.sitems().len() > 1 { val_norm_lo(lhs.sitems()); bp_mono(1, lhs.sitems().len() - 1); }
  }
//@ fn shr_on_big
  ensures wf(res.res()), bi(res.res()) == (if sign == Sign::Negative { -1int } else { 0 })
//@ fn shl_on_u64
  requires wf(*lhs)
  ensures wf(res.res()), bi(res.res()) == bi(*lhs) * p2(rhs as int)
//@ trunc
//@ start
  proof { wf_sign(*lhs); mod64(rhs); assert(0 * p2(rhs as int) == 0); }
//@ before if shift_mod > 0
  let ghost orig = vec@;
  proof { p2_64(); assert(val(orig) * 1 == val(orig)); }
//@ loop 0
  vst0.n() == orig.len(), !vst0.inf(), orig.len() > 0, len == orig.len(), 0 < shift_mod < 64,
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == orig.len() - 1 - i,
  vec@.len() == orig.len() + 1,
  forall|j: int| 0 <= j < orig.len() - vk0 ==> vec@[j] == orig[j],
  vec@[orig.len() - vk0] & msk(shift_mod) == 0,
  vk0 <= vst0.n(),
  val(vec@) == vpre(orig, orig.len() - vk0) + p2(shift_mod as int) * (val(orig) - vpre(orig, orig.len() - vk0)),
//@ loop 0 before
  proof {
    val_push(orig, 0); let m = msk(shift_mod); assert(0 & m == 0) by(bit_vector); assert(vec@ =~= orig.push(0));
    let q = p2(shift_mod as int); assert(q * 0 == 0);
  }
//@ loop 0 start
  let ghost v0 = vec@;
  proof { assert(vst0.at(vk0 - 1) == orig.len() - vk0); assert(i == orig.len() - vk0); shl128(vec@[i as int], shift_mod); shl_bits(vec@[i as int], vec@[i + 1], shift_mod); }
//@ loop 0 end
  proof {
    let (h, l) = ((digit >> 64) as u64, digit as u64);
    let v1 = v0.update(i + 1, (v0[i + 1] | h));
    val_update(v0, i + 1, (v0[i + 1] | h));
    val_update(v1, i as int, l);
    assert(vec@ =~= v1.update(i as int, l));
    let x = orig[i as int];
    assert(x * p2(shift_mod as int) == BB() * h + l);
    shl_step(val(v0), x as int, h as int, l as int, bp(i as int), vpre(orig, i as int), val(orig), p2(shift_mod as int));
  }
//@ before let number_of_zeros
  let ghost vs = vec@;
  proof { let (q, v) = (p2(shift_mod as int), val(orig)); assert(val(vs) == val(orig) * p2(shift_mod as int)) by { assert(v * q == q * (v - 0)) by(nonlinear_arith); } }
//@ before vec = normalize_vec(vec)
  proof {
    let n = number_of_zeros as int;
    let (a, b, c) = (p2(shift_mod as int), p2(64 * n), val(orig));
    bp_p2(n); ipow_add(2, shift_mod as int, 64 * n);
    p2_pos(rhs as int);
    assert(val(vec@) == c * p2(rhs as int)) by {
      assert(b * (c * a) == c * (a * b)) by(nonlinear_arith);
      assert(n == 0 ==> b == 1);
      if b == 1 { assert(c * (a * b) == c * a); }
    }
    let p = p2(rhs as int);
    assert((-c) * p == -(c * p)) by(nonlinear_arith);
    assert(c * p >= c) by(nonlinear_arith) requires c >= 0, p >= 1;
  }
//@ tail
  proof { val_zero(vec@); }
//@ after zeros_vector.extend(vec)
  proof { assert(zeros_vector@ =~= zeros_vector@.take(number_of_zeros as int) + vs); val_prepend_zeros(zeros_vector@.take(number_of_zeros as int), vs); }
//@ fn shr_on_u64
  requires wf(*lhs)
  ensures wf(res.res()), bi(res.res()) == bi(*lhs) / p2(rhs as int)
//@ start
  let ghost n0 = rhs as int / 64;
  proof { wf_sign(*lhs); mod64(rhs); val_single(1); bp_p2(n0); p2_pos(rhs as int);
    let l = lhs.sitems();
    if l.len() > 0 { val_norm_lo(l); }
    if n0 >= l.len() { bp_mono(l.len() as int, n0); val_bound(l); ipow_mono(2, 64 * n0, rhs as int);
       let p = p2(rhs as int); let x = val(l);
       if bi(*lhs) < 0 { floor_div(-x, p, -1, p - x); } else { floor_div(x, p, 0, x); } }
  }
//@ before vec = vec.split_off
  let ghost w = vec@;
  proof { val_skip(w, number_to_remove as int); bp_pos(n0); val_bound(w.skip(n0)); }
//@ before let shift_mod
  let ghost v = vec@;
  proof { let (a, b) = (bp(n0), val(v)); assert(a * b == b * a) by(nonlinear_arith); assert(v =~= w.skip(n0)); floor_div(val(w), bp(n0), val(v), vpre(w, n0)); }
//@ before if shift_mod > 0
  proof { p2_64(); val_bound(v); vstd::arithmetic::div_mod::lemma_div_basics(val(v)); assert(shift_mod == 0 ==> val(vec@) == val(v) / p2(shift_mod as int)); if shift_mod > 0 { p2_shl(shift_mod); } }
//@ loop 0
  invariant_except_break
    i < len, vec@.len() == len,
    forall|j: int| i <= j < len ==> vec@[j] == v[j],
    vpre(vec@, i as int) * p2(shift_mod as int) + (v[0] & mask) == vpre(v, i as int) + (v[i as int] & mask) * bp(i as int),
  invariant
    0 < shift_mod < 64, len == v.len(), mask == msk(shift_mod),
  ensures i == len, vec@.len() == len, val(vec@) == val(v) / p2(shift_mod as int)
  decreases len - i
//@ loop 0 before
  proof { assert(0 * p2(shift_mod as int) == 0); assert((v[0] & mask) * bp(0) == v[0] & mask); }
//@ loop 0 start
  let ghost v1 = vec@; let ghost i1 = i as int;
  proof { shr_bits(vec@[i as int], shift_mod); shr_bits(v[0], shift_mod); if i1 + 1 < len { shr_or(vec@[i1], vec@[i1 + 1], shift_mod); } }
//@ before if i == len
  proof {
    let q = p2(shift_mod as int);
    let x = v[i1]; let d = x >> shift_mod; let p = bp(i1);
    vpre_same(vec@, v1, i1);
    let (a, c, b, e) = (vpre(v1, i1), (v[0] & mask) as int, vpre(v, i1), (x & mask) as int);
    let dd = d as int; let xx = x as int;
    assert((a + dd * p) * q + c == b + xx * p) by(nonlinear_arith) requires a * q + c == b + e * p, dd * q + e == xx;
    if i == len {
      assert(val(vec@) * q + c == val(v));
      floor_div(val(v), q, val(vec@), c);
    }
  }
//@ loop 0 end
  proof {
    let q = p2(shift_mod as int);
    let x = v[i1]; let d = x >> shift_mod; let p = bp(i1);
    let y = v[i1 + 1] & mask; let z = y << ((64 - shift_mod) as u64);
    vpre_same(vec@, v1, i1);
    assert(vec@[i1] == d + z);
    let (a, c, b, e) = (vpre(v1, i1), (v[0] & mask) as int, vpre(v, i1), (x & mask) as int);
    let (dd, xx, yy, zz) = (d as int, x as int, y as int, z as int);
    assert((a + (dd + zz) * p) * q + c == (b + xx * p) + yy * (BB() * p)) by(nonlinear_arith) requires a * q + c == b + e * p, dd * q + e == xx, zz * q == yy * BB();
  }
//@ before vec = normalize_vec(vec)
  proof {
    let s = shift_mod as int;
    assert(val(vec@) == val(v) / p2(s));
    bp_p2(n0); ipow_add(2, 64 * n0, s); p2_pos(s); bp_pos(n0);
    div_div(val(w), bp(n0), p2(s));
    val_bound(vec@);
    if bi(*lhs) < 0 { neg_floor(val(w) + 1, p2(rhs as int)); }
  }
//@ fn shl
  requires wf(*lhs), wf(*rhs), bi(*lhs) != 0 ==> bi(*rhs) < BB()
  ensures wf(res.res()), bi(*rhs) >= 0 ==> bi(res.res()) == bi(*lhs) * p2(bi(*rhs)), bi(*rhs) < 0 ==> bi(res.res()) == bi(*lhs) / p2(-bi(*rhs)),
//@ start
  proof { wf_ops(*lhs, *rhs); sh_extreme(*lhs, *rhs); }
//@ fn shr
  requires wf(*lhs), wf(*rhs), bi(*lhs) != 0 ==> bi(*rhs) > -BB()
  ensures wf(res.res()), bi(*rhs) >= 0 ==> bi(res.res()) == bi(*lhs) / p2(bi(*rhs)), bi(*rhs) < 0 ==> bi(res.res()) == bi(*lhs) * p2(-bi(*rhs)),
//@ start
  proof { wf_ops(*lhs, *rhs); sh_extreme(*lhs, *rhs); }
//@ raw
#[verifier::external_body] // address-space bound, as for vectors and slices
pub proof fn axiom_bigint_len(x: &JsBigint) ensures x.sitems().len() <= MAXLIMBS() {}
pub proof fn sh_extreme(x: JsBigint, y: JsBigint) requires wf(x), wf(y)
  ensures
    p2(0) == 1, bi(x) * 1 == bi(x), bi(x) / 1 == bi(x), 0 * p2(bi(y)) == 0, 0 * p2(-bi(y)) == 0, 0int / p2(bi(y)) == 0, 0int / p2(-bi(y)) == 0,
    bi(y) == 0 ==> bi(x) * p2(bi(y)) == bi(x) && bi(x) / p2(bi(y)) == bi(x),
    y.sitems().len() > 1 ==> iabs(bi(y)) >= BB() && bi(x) / p2(iabs(bi(y))) == (if bi(x) < 0 { -1int } else { 0 }),
    y.sitems().len() == 1 ==> y.sitems()[0] == iabs(bi(y)),
{
    wf_sign(x); wf_sign(y); p2_64();
    p2_pos(bi(y)); p2_pos(-bi(y));
    let (a, b) = (p2(bi(y)), p2(-bi(y)));
    floor_div(0, a, 0, 0); floor_div(0, b, 0, 0);
    vstd::arithmetic::div_mod::lemma_div_basics(bi(x));
    if y.sitems().len() > 1 {
        val_norm_lo(y.sitems()); bp_mono(1, y.sitems().len() - 1);
        assert(bp(1) == BB()) by { assert(bp(0) == 1); }
        let n = iabs(bi(y));
        let l = x.sitems();
        val_bound(l);
        axiom_bigint_len(&x);
        p2_huge(n, l.len() as int);
        let p = p2(n); let v = bi(x);
        if v < 0 { floor_div(v, p, -1, p + v); } else { floor_div(v, p, 0, v); }
    }
}
// ---- infinite two's complement ----
// limb i of an integer written in two's complement with infinitely many limbs
pub open spec fn tlimb(x: int, i: int) -> int { (x / bp(i)) % BB() }
pub open spec fn tneg(t: TwosComplement) -> bool { t.sign == Sign::Negative }
pub open spec fn tcv(t: TwosComplement) -> int { val(t.vec@) - (if tneg(t) { bp(t.vec@.len() as int) } else { 0 }) }
pub open spec fn trep(t: TwosComplement) -> u64 { if tneg(t) { u64::MAX } else { 0 } }
pub open spec fn tl(t: TwosComplement, i: int) -> u64 { if i < t.vec@.len() { t.vec@[i] } else { trep(t) } }
pub proof fn tl_limb(t: TwosComplement, i: int) requires i >= 0 ensures tl(t, i) == tlimb(tcv(t), i) {
    let v = t.vec@; let n = v.len() as int;
    let e = if tneg(t) { 1int } else { 0 };
    bp_pos(i); val_bound(v);
    if i < n {
        val_skip(v, i); val_skip(v.skip(i), 1);
        let rest = val(v.skip(i).skip(1));
        assert(vpre(v.skip(i), 1) == v[i]) by { assert(vpre(v.skip(i), 0) == 0); assert(bp(0) == 1); }
        assert(bp(1) == BB()) by { assert(bp(0) == 1); }
        bp_add(i, n - i); bp_add(1, n - i - 1);
        let (p, u) = (bp(i), bp(n - i - 1));
        let q = v[i] + BB() * (rest - e * u);
        assert(tcv(t) == q * p + vpre(v, i)) by(nonlinear_arith)
            requires tcv(t) == (vpre(v, i) + p * (v[i] + BB() * rest)) - e * (p * (BB() * u)), q == v[i] + BB() * (rest - e * u);
        floor_div(tcv(t), p, q, vpre(v, i));
        floor_div(q, BB(), rest - e * u, v[i] as int);
    } else {
        bp_mono(n, i);
        let p = bp(i); let x = tcv(t);
        if tneg(t) { floor_div(x, p, -1, p + x); floor_div(-1, BB(), -1, BB() - 1); } else { floor_div(x, p, 0, x); floor_div(0, BB(), 0, 0); }
    }
}
// complementing every limb
pub proof fn val_not(s: Seq<u64>, t: Seq<u64>) requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == !s[i]
    ensures val(t) == bp(s.len() as int) - 1 - val(s)
    decreases s.len()
{
    if s.len() > 0 {
        let (a, b) = (s.drop_last(), t.drop_last());
        let k = s.len() - 1;
        val_not(a, b);
        assert(s =~= a.push(s[k])); assert(t =~= b.push(t[k]));
        val_push(a, s[k]); val_push(b, t[k]);
        let x = s[k]; assert(!x == 0xffff_ffff_ffff_ffff - x) by(bit_vector);
        let p = bp(k); let xx = x as int;
        assert((BB() - 1 - xx) * p == BB() * p - p - xx * p) by(nonlinear_arith);
    } else { assert(bp(0) == 1); }
}
// the limb-wise operations, as the definition of and/or/xor on integers
pub open spec fn is_and(r: int, x: int, y: int) -> bool { forall|i: int| i >= 0 ==> #[trigger] tlimb(r, i) == ((tlimb(x, i) as u64) & (tlimb(y, i) as u64)) as int }
pub open spec fn is_or(r: int, x: int, y: int) -> bool { forall|i: int| i >= 0 ==> #[trigger] tlimb(r, i) == ((tlimb(x, i) as u64) | (tlimb(y, i) as u64)) as int }
pub open spec fn is_xor(r: int, x: int, y: int) -> bool { forall|i: int| i >= 0 ==> #[trigger] tlimb(r, i) == ((tlimb(x, i) as u64) ^ (tlimb(y, i) as u64)) as int }
pub open spec fn pair_ok(p: (u64, u64), l: TwosComplement, r: TwosComplement, i: int) -> bool { p == (tl(l, i), tl(r, i)) || p == (tl(r, i), tl(l, i)) }
pub proof fn comm(a: u64, b: u64) ensures a & b == b & a, a | b == b | a, a ^ b == b ^ a {
    assert(a & b == b & a) by(bit_vector); assert(a | b == b | a) by(bit_vector); assert(a ^ b == b ^ a) by(bit_vector);
}
pub proof fn rep_ops() ensures
    0u64 & 0 == 0, 0u64 & u64::MAX == 0, u64::MAX & 0 == 0, u64::MAX & u64::MAX == u64::MAX,
    0u64 | 0 == 0, 0u64 | u64::MAX == u64::MAX, u64::MAX | 0 == u64::MAX, u64::MAX | u64::MAX == u64::MAX,
    0u64 ^ 0 == 0, 0u64 ^ u64::MAX == u64::MAX, u64::MAX ^ 0 == u64::MAX, u64::MAX ^ u64::MAX == 0,
{
    assert(0u64 & 0 == 0 && 0u64 & 0xffff_ffff_ffff_ffff == 0 && 0xffff_ffff_ffff_ffffu64 & 0 == 0 && 0xffff_ffff_ffff_ffffu64 & 0xffff_ffff_ffff_ffff == 0xffff_ffff_ffff_ffff) by(bit_vector);
    assert(0u64 | 0 == 0 && 0u64 | 0xffff_ffff_ffff_ffff == 0xffff_ffff_ffff_ffff && 0xffff_ffff_ffff_ffffu64 | 0 == 0xffff_ffff_ffff_ffff && 0xffff_ffff_ffff_ffffu64 | 0xffff_ffff_ffff_ffff == 0xffff_ffff_ffff_ffff) by(bit_vector);
    assert(0u64 ^ 0 == 0 && 0u64 ^ 0xffff_ffff_ffff_ffff == 0xffff_ffff_ffff_ffff && 0xffff_ffff_ffff_ffffu64 ^ 0 == 0xffff_ffff_ffff_ffff && 0xffff_ffff_ffff_ffffu64 ^ 0xffff_ffff_ffff_ffff == 0) by(bit_vector);
}
//@ fn to_twos_complement
  requires wf(*value)
  ensures tcv(res) == bi(*value)
//@ start
  proof { wf_sign(*value); val_single(1); }
//@ loop 0
  vst0.n() == iseq(vst0).len(), !vst0.inf(),
  res@.len() == vk0, vk0 <= vst0.n(),
  forall|i: int| 0 <= i < vk0 ==> #[trigger] res@[i] == !iseq(vst0)[i],
//@ loop 0 start
  proof { assert(iseq(vst0)[vk0 - 1] == vst0.at(vk0 - 1)); }
//@ loop 0 after
  proof { val_not(iseq(vst0), res@); }
//@ fn from_twos_complement
  ensures wf(res.res()), bi(res.res()) == tcv(value)
//@ start
  proof { val_bound(value.vec@); val_single(1); }
//@ loop 0
  vst0.n() == iseq(vst0).len(), !vst0.inf(),
  res@.len() == vk0, vk0 <= vst0.n(),
  forall|i: int| 0 <= i < vk0 ==> #[trigger] res@[i] == !iseq(vst0)[i],
//@ loop 0 start
  proof { assert(iseq(vst0)[vk0 - 1] == vst0.at(vk0 - 1)); }
//@ loop 0 after
  proof { val_not(iseq(vst0), res@); }
//@ before new_bigint(m, Sign::Negative, res)
  proof { val_zero(res@); }
//@ fn twos_complement_zip
  ensures res.inv(), !res.inf(), res.n() == (if rhs.vec@.len() > lhs.vec@.len() { rhs.vec@.len() } else { lhs.vec@.len() }),
    forall|i: int| 0 <= i < res.n() ==> pair_ok(#[trigger] res.at(i), *lhs, *rhs, i)
//@ fn and_twos_complement
  ensures forall|i: int| i >= 0 ==> #[trigger] tl(res, i) == tl(lhs, i) & tl(rhs, i)
//@ start
  proof { rep_ops(); }
//@ loop 0
  vst0.n() == (if rhs.vec@.len() > lhs.vec@.len() { rhs.vec@.len() } else { lhs.vec@.len() }), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> pair_ok(#[trigger] vst0.at(i), lhs, rhs, i),
  vec@.len() == vk0, vk0 <= vst0.n(),
  forall|i: int| 0 <= i < vk0 ==> #[trigger] vec@[i] == tl(lhs, i) & tl(rhs, i),
//@ loop 0 start
  proof { comm(a, b); assert(pair_ok(vst0.at(vk0 - 1), lhs, rhs, vk0 - 1)); }
//@ fn or_twos_complement
  ensures forall|i: int| i >= 0 ==> #[trigger] tl(res, i) == tl(lhs, i) | tl(rhs, i)
//@ start
  proof { rep_ops(); }
//@ loop 0
  vst0.n() == (if rhs.vec@.len() > lhs.vec@.len() { rhs.vec@.len() } else { lhs.vec@.len() }), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> pair_ok(#[trigger] vst0.at(i), lhs, rhs, i),
  vec@.len() == vk0, vk0 <= vst0.n(),
  forall|i: int| 0 <= i < vk0 ==> #[trigger] vec@[i] == tl(lhs, i) | tl(rhs, i),
//@ loop 0 start
  proof { comm(a, b); assert(pair_ok(vst0.at(vk0 - 1), lhs, rhs, vk0 - 1)); }
//@ fn xor_twos_complement
  ensures forall|i: int| i >= 0 ==> #[trigger] tl(res, i) == tl(lhs, i) ^ tl(rhs, i)
//@ start
  proof { rep_ops(); }
//@ loop 0
  vst0.n() == (if rhs.vec@.len() > lhs.vec@.len() { rhs.vec@.len() } else { lhs.vec@.len() }), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> pair_ok(#[trigger] vst0.at(i), lhs, rhs, i),
  vec@.len() == vk0, vk0 <= vst0.n(),
  forall|i: int| 0 <= i < vk0 ==> #[trigger] vec@[i] == tl(lhs, i) ^ tl(rhs, i),
//@ loop 0 start
  proof { comm(a, b); assert(pair_ok(vst0.at(vk0 - 1), lhs, rhs, vk0 - 1)); }
//@ fn and
  requires wf(*lhs), wf(*rhs)
  ensures wf(res.res()), is_and(bi(res.res()), bi(*lhs), bi(*rhs))
//@ tail
  proof { assert forall|i: int| i >= 0 implies #[trigger] tlimb(tcv(res_tc), i) == ((tlimb(bi(*lhs), i) as u64) & (tlimb(bi(*rhs), i) as u64)) as int by { tl_limb(lhs_tc, i); tl_limb(rhs_tc, i); tl_limb(res_tc, i); } }
//@ fn or
  requires wf(*lhs), wf(*rhs)
  ensures wf(res.res()), is_or(bi(res.res()), bi(*lhs), bi(*rhs))
//@ tail
  proof { assert forall|i: int| i >= 0 implies #[trigger] tlimb(tcv(res_tc), i) == ((tlimb(bi(*lhs), i) as u64) | (tlimb(bi(*rhs), i) as u64)) as int by { tl_limb(lhs_tc, i); tl_limb(rhs_tc, i); tl_limb(res_tc, i); } }
//@ fn xor
  requires wf(*lhs), wf(*rhs)
  ensures wf(res.res()), is_xor(bi(res.res()), bi(*lhs), bi(*rhs))
//@ tail
  proof { assert forall|i: int| i >= 0 implies #[trigger] tlimb(tcv(res_tc), i) == ((tlimb(bi(*lhs), i) as u64) ^ (tlimb(bi(*rhs), i) as u64)) as int by { tl_limb(lhs_tc, i); tl_limb(rhs_tc, i); tl_limb(res_tc, i); } }
