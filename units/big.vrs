//@ raw
#![allow(unused)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;
//@ include iters.vrs
//@ include limbs.vrs
//@ raw
}
use pre::*;
broadcast use {pre::axiom_vec_len, pre::axiom_slice_len, pre::val_len1};
//@ include cast.vrs
//@ gsub .iter() => .viter()
//@ gsub iter::repeat(0) => VRepeat { x: 0 }
//@ gsub .extend( => .vextend(
//@ gsub (0..=len - 1).rev() => vrange_inc(0, len - 1).rev()
//@ gsub BigUint::ZERO => biguint_zero()
//@ gsub BigInt::ZERO => bigint_zero()
//@ gsub .cast() => .vcast()
//@ gsub self.is_zero() | rhs.is_zero() => self.is_zero() || rhs.is_zero()
//@ gsub #[derive(Debug, PartialEq, Clone, Copy, Eq)] => #[derive(PartialEq, Clone, Copy, Eq)]
//@ gsub #[derive(Debug, PartialEq, Clone, Eq, Default)] => 
//@ raw
pub assume_specification[ <Ordering as PartialEq>::eq ](x: &Ordering, y: &Ordering) -> (r: bool) ensures r == (*x == *y);
pub assume_specification[ i64::unsigned_abs ](x: i64) -> (r: u64)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });
// the derived impls, field by field
impl Clone for BigUint { fn clone(&self) -> (r: Self) ensures r.value@ == self.value@ { let v = self.value.clone(); proof { assert(v@ =~= self.value@); } BigUint { value: v } } }
impl Default for BigUint { fn default() -> (r: Self) ensures r.value@.len() == 0 { BigUint { value: Vec::new() } } }
pub open spec fn uv(x: BigUint) -> int { val(x.value@) }
pub open spec fn un(x: BigUint) -> bool { norm(x.value@) }
pub open spec fn sgn(s: Sign) -> int { match s { Sign::Positive => 1, Sign::Negative => -1 } }
pub open spec fn sg(s: Sign, n: int) -> int { match s { Sign::Positive => n, Sign::Negative => -n } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn iv(x: BigInt) -> int { sg(x.sign, uv(x.value)) }
// canonical: no high zero limb, no negative zero
pub open spec fn iw(x: BigInt) -> bool { un(x.value) && (uv(x.value) == 0 ==> x.sign == Sign::Positive) }
pub proof fn u_ops(x: BigUint, y: BigUint) requires un(x), un(y)
  ensures
    uv(x) > uv(y) ==> x.value@.len() >= y.value@.len(),
    uv(y) > uv(x) ==> y.value@.len() >= x.value@.len(),
    uv(x) == uv(y) ==> x.value@ == y.value@,
    u_sig(x), u_sig(y)
{
    u_sign(x); u_sign(y);
    if x.value@.len() < y.value@.len() { val_len_lt(x.value@, y.value@); }
    if y.value@.len() < x.value@.len() { val_len_lt(y.value@, x.value@); }
    if uv(x) == uv(y) { val_inj(x.value@, y.value@); }
}
pub open spec fn u_sig(x: BigUint) -> bool { uv(x) >= 0 && (uv(x) == 0 <==> x.value@.len() == 0) }
pub proof fn u_sign(x: BigUint) requires un(x) ensures u_sig(x)
{ if x.value@.len() > 0 { val_norm_lo(x.value@); } val_bound(x.value@); }
//@ file nanvm-lib/src/common/default.rs
//@ fn default
  ensures T::default.ensures((), res)
//@ file nanvm-lib/src/common/vec.rs
//@ fn new_resize
  ensures res@.len() == size, exists|d: T| #[trigger] T::default.ensures((), d) && forall|i: int| 0 <= i < size ==> cloned(d, #[trigger] res@[i])
//@ file nanvm-lib/src/big_numbers/big_int.rs
//@ raw
#[derive(PartialEq, Clone, Copy, Eq, Structural)]
//@ item enum Sign
//@ item struct BigInt
//@ file nanvm-lib/src/big_numbers/big_uint.rs
//@ item struct BigUint
//@ constfn BigUint::ZERO biguint_zero
  ensures un(res), uv(res) == 0, res.value@.len() == 0
//@ fn BigUint::one
  ensures un(res), uv(res) == 1, res.value@ == seq![1u64]
//@ tail
  proof { val_single(1); assert([1u64]@ =~= seq![1u64]); }
//@ fn BigUint::normalize
  ensures un(*final(self)), uv(*final(self)) == uv(*old(self)), final(self).value@.len() <= old(self).value@.len(), un(*old(self)) ==> final(self).value@ == old(self).value@
//@ start
  let ghost v0 = self.value@;
//@ loop 0
  invariant self.value@.len() <= v0.len(), val(self.value@) == val(v0), norm(v0) ==> self.value@ == v0
  ensures norm(self.value@)
  decreases self.value@.len()
//@ loop 0 start
  proof { val_pop0(self.value@); assert(self.value@.drop_last() == self.value@.take(self.value@.len() - 1)); }
//@ fn BigUint::is_one
  ensures un(*self) ==> res == (uv(*self) == 1), res ==> uv(*self) == 1
//@ start
  proof { if un(*self) { one_iff(*self); } if self.value@.len() == 1 { val_single(self.value@[0]); assert(self.value@ =~= seq![self.value@[0]]); } }
//@ fn BigUint::len
  ensures res == self.value@.len()
//@ fn BigUint::is_empty
  ensures res == (self.value@.len() == 0)
//@ fn BigUint::is_zero
  ensures res == (self.value@.len() == 0), un(*self) ==> res == (uv(*self) == 0)
//@ start
  proof { if un(*self) { u_sign(*self); } }
//@ fn BigUint::from_u64
  ensures un(res), uv(res) == n
//@ start
  proof { val_single(n); assert([n]@ =~= seq![n]); }
//@ fn BigUint::get_last_bit
  requires un(*self)
  ensures res == uv(*self) % 2
//@ start
  proof { u_sign(*self); if self.value@.len() > 0 { val_parity(self.value@); let x = self.value@[0]; assert(x & 1 == x % 2) by(bit_vector); } }
//@ fn BigUint::to_big_int
  ensures iv(res) == uv(self), un(self) ==> iw(res)
//@ fn <PartialOrd for BigUint>::partial_cmp
  requires un(*self), un(*other)
  ensures res is Some,
    res == Some(Ordering::Less) <==> uv(*self) < uv(*other),
    res == Some(Ordering::Greater) <==> uv(*self) > uv(*other),
    res == Some(Ordering::Equal) <==> uv(*self) == uv(*other)
//@ head impl BigUint
//@ fn <Ord for BigUint>::cmp
  requires un(*self), un(*other)
  ensures
    res == Ordering::Less <==> uv(*self) < uv(*other),
    res == Ordering::Greater <==> uv(*self) > uv(*other),
    res == Ordering::Equal <==> self.value@ == other.value@,
    res == Ordering::Equal <==> uv(*self) == uv(*other),
//@ head impl BigUint
//@ start
  proof {
    if self.value@.len() < other.value@.len() { val_len_lt(self.value@, other.value@); }
    if other.value@.len() < self.value@.len() { val_len_lt(other.value@, self.value@); }
  }
//@ loop 0
  self.value@.len() == other.value@.len(), vst0.n() == self.value@.len(), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == (self.value@[self.value@.len() - 1 - i], other.value@[other.value@.len() - 1 - i]),
  forall|i: int| self.value@.len() - vk0 <= i < self.value@.len() ==> self.value@[i] == other.value@[i],
//@ loop 0 start
  proof {
    let j = self.value@.len() - vk0;
    assert(vst0.at(vk0 - 1) == (self.value@[j], other.value@[j]));
    if self.value@[j] < other.value@[j] { vpre_top_lt(self.value@, other.value@, j, self.value@.len() as int); }
    if other.value@[j] < self.value@[j] { vpre_top_lt(other.value@, self.value@, j, self.value@.len() as int); }
  }
//@ loop 0 after
  proof { assert(self.value@ =~= other.value@); }
//@ fn <Add for &BigUint>::add
  ensures uv(res) == uv(*self) + uv(*other), un(*self) && un(*other) ==> un(res)
//@ head impl BigUint
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigUint
//@ sub fn add => fn vop_add
//@ opcall
//@ trunc
//@ loop 0
  vst0.n() == (if other.value@.len() > self.value@.len() { other.value@.len() } else { self.value@.len() }), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> (#[trigger] vst0.at(i)).0 + vst0.at(i).1 == limb(self.value@, i) + limb(other.value@, i),
  value@.len() == vk0, 0 <= carry <= 1, vk0 <= vst0.n(),
  val(value@) + carry * bp(vk0) == vpre(self.value@, vk0) + vpre(other.value@, vk0),
//@ loop 0 start
  let ghost (c0, v0) = (carry as int, value@);
//@ loop 0 end
  proof {
    let k = vk0 - 1;
    let s = limb(self.value@, k) + limb(other.value@, k) + c0;
    lemma_split128(next);
    val_push(v0, value@[k]);
    assert(value@ =~= v0.push(value@[k]));
    add_step(val(v0), c0, bp(k), vpre(self.value@, k), vpre(other.value@, k), limb(self.value@, k), limb(other.value@, k), value@[k] as int, carry as int);
  }
//@ loop 0 after
  let ghost vw = value@;
  proof {
    let n = vst0.n();
    vpre_ext(self.value@, n); vpre_ext(other.value@, n);
    val_push(value@, carry as u64);
    val_bound(self.value@); val_bound(other.value@);
    if norm(self.value@) && norm(other.value@) {
      if self.value@.len() > 0 { val_norm_lo(self.value@); }
      if other.value@.len() > 0 { val_norm_lo(other.value@); }
      if carry == 0 { norm_from_val(value@); }
    }
  }
//@ fn <Sub for &BigUint>::sub
  requires un(*self), un(*other)
  ensures un(res), uv(res) == (if uv(*self) >= uv(*other) { uv(*self) - uv(*other) } else { 0 })
//@ head impl BigUint
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigUint
//@ sub fn sub => fn vop_sub
//@ opcall
//@ start
  proof { u_ops(*self, *other); }
//@ trunc
//@ loop 0
  vst0.n() == self.value@.len(), !vst0.inf(),
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == (limb(self.value@, i) as u64, limb(other.value@, i) as u64),
  value@.len() == vk0, 0 <= borrow <= 1, vk0 <= vst0.n(),
  val(value@) - borrow * bp(vk0) == vpre(self.value@, vk0) - vpre(other.value@, vk0),
//@ loop 0 start
  let ghost (c0, v0) = (borrow as int, value@);
//@ loop 0 end
  proof {
    let k = vk0 - 1;
    lemma_split_i128(next);
    val_push(v0, value@[k]);
    assert(value@ =~= v0.push(value@[k]));
    sub_step(val(v0), c0, bp(k), vpre(self.value@, k), vpre(other.value@, k), limb(self.value@, k), limb(other.value@, k), value@[k] as int, borrow as int);
  }
//@ loop 0 after
  proof {
    let n = vst0.n();
    vpre_ext(self.value@, n); vpre_ext(other.value@, n);
    val_bound(value@);
    assert(borrow == 0) by(nonlinear_arith) requires val(value@) - borrow * bp(n) >= 0, val(value@) < bp(n), 0 <= borrow <= 1;
  }
//@ fn add_to_vec
  requires index < vec@.len(), add <= PM(), val(vec@) + add * bp(index as int) < bp(vec@.len() as int)
  ensures res@.len() == vec@.len(), val(res@) == val(vec@) + add * bp(index as int)
  decreases vec@.len() - index
//@ trunc
//@ start
  let ghost v0 = vec@;
//@ before if carry > 0
  proof {
    lemma_split128(sum);
    val_update(v0, index as int, vec@[index as int]);
    let p = bp(index as int);
    let (x, o, c, a) = (vec@[index as int] as int, v0[index as int] as int, carry as int, add as int);
    assert((x - o) * p + c * (BB() * p) == a * p) by(nonlinear_arith) requires o + a == x + BB() * c;
    if c > 0 {
      val_bound(vec@); bp_pos(index + 1);
      assert(c * bp(index + 1) >= bp(index + 1)) by(nonlinear_arith) requires c >= 1, bp(index + 1) >= 1;
      if index + 1 >= v0.len() { bp_mono(v0.len() as int, index + 1); }
      
    } else { assert(c * (BB() * p) == 0) by(nonlinear_arith) requires c == 0; }
  }
//@ fn <Mul for &BigUint>::mul
  ensures un(res) || (self.value@.len() == 0 || other.value@.len() == 0), un(res), uv(res) == uv(*self) * uv(*other)
//@ head impl BigUint
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigUint
//@ sub fn mul => fn vop_mul
//@ opcall
//@ start
  proof { assert(0 * uv(*other) == 0); assert(uv(*self) * 0 == 0); }
//@ loop 0
  invariant
    self.value@.len() > 0, other.value@.len() > 0, self.value@.len() <= MAXLIMBS(), other.value@.len() <= MAXLIMBS(),
    lhs_max == self.value@.len() - 1, rhs_max == other.value@.len() - 1, total_max == lhs_max + rhs_max + 1,
    value@.len() == total_max + 1, i <= total_max,
    val(value@) == conv(self.value@, other.value@, i as int),
  decreases total_max - i
//@ loop 0 before
  proof { val_zeros(value@, value@.len() as int); }
//@ loop 0 after
  proof { conv_total(self.value@, other.value@); }
//@ loop 1
  invariant
    self.value@.len() > 0, other.value@.len() > 0, self.value@.len() <= MAXLIMBS(), other.value@.len() <= MAXLIMBS(),
    lhs_max == self.value@.len() - 1, rhs_max == other.value@.len() - 1, total_max == lhs_max + rhs_max + 1,
    value@.len() == total_max + 1, i < total_max,
    max == (if i < lhs_max { i } else { lhs_max }), j <= max + 1, i - j <= rhs_max,
    val(value@) == conv(self.value@, other.value@, i as int) + dsum(self.value@, other.value@, j as int, i as int) * bp(i as int),
  decreases max + 1 - j
//@ loop 1 before
  proof { dsum_zero_lo(self.value@, other.value@, j as int, i as int); assert(0 * bp(i as int) == 0); }
//@ loop 1 start
  proof { mul_room(self.value@, other.value@, i as int, j as int); }
//@ loop 1 after
  proof { if i >= lhs_max { dsum_zero_hi(self.value@, other.value@, i + 1, i as int); dsum_zero_hi(self.value@, other.value@, j as int, i as int); } }
//@ fn BigUint::div_mod
  requires un(*self), un(*b), uv(*b) != 0
  ensures un(res.0), un(res.1), uv(res.0) == uv(*self) / uv(*b), uv(res.1) == uv(*self) % uv(*b)
//@ trunc
//@ opcall
//@ start
  proof {
    u_ops(*self, *b); val_single(1); assert([1u64]@ =~= seq![1u64]);
    let (x, y) = (uv(*self), uv(*b));
    if x < y { euclid(x, y, 0, x); } else if x == y { euclid(x, y, 1, 0); }
  }
//@ loop 0
  invariant
    un(*self), un(*b), b.value@.len() > 0, norm(a.value@), norm(result.value@),
    val(b.value@) > 0, val(a.value@) >= 0,
    val(result.value@) * val(b.value@) + val(a.value@) == uv(*self),
  decreases val(a.value@)
//@ loop 0 start
  let ghost (a0, r0) = (a.value@, result.value@);
  proof {
    val_zero(a.value@); val_zero(result.value@); val_bound(result.value@); val_bound(a.value@);
    if val(a.value@) < val(b.value@) { euclid(uv(*self), val(b.value@), val(result.value@), val(a.value@)); } else { len_le(b.value@, a.value@); top1(a.value@); if a.value@.len() > 1 { top2(a.value@); } }
  }
//@ before let (q_index, q_digit)
  proof {
    shl64(a_high);
    let (na, nb) = (a.value@.len() - 1, b.value@.len() - 1);
    let (ah, bh) = (a.value@[na] as int, b.value@[nb] as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(ah, bh + 1);
    if na > 0 {
      let h = ah * BB() + a.value@[na - 1];
      vstd::arithmetic::div_mod::lemma_fundamental_div_mod(h, bh + 1);
      let d = h / (bh + 1);
      if ah <= bh && na > nb {
        assert(1 <= d < BB()) by(nonlinear_arith) requires h == (bh + 1) * d + h % (bh + 1), 0 <= h % (bh + 1) < bh + 1, h >= BB(), h < (bh + 1) * BB(), 0 <= bh < BB();
        assert(d * (bh + 1) <= h) by(nonlinear_arith) requires h == (bh + 1) * d + h % (bh + 1), 0 <= h % (bh + 1);
        est(a.value@, b.value@, h, na - 1, d, na - nb - 1);
      }
    }
    if bh < ah {
      let d = ah / (bh + 1);
      assert(1 <= d) by(nonlinear_arith) requires ah == (bh + 1) * d + ah % (bh + 1), 0 <= ah % (bh + 1) < bh + 1, ah >= bh + 1;
      assert(d * (bh + 1) <= ah) by(nonlinear_arith) requires ah == (bh + 1) * d + ah % (bh + 1), 0 <= ah % (bh + 1);
      est(a.value@, b.value@, ah, na, d, na - nb);
    }
    assert((1 * bp(0)) * val(b.value@) == val(b.value@)) by(nonlinear_arith) requires bp(0) == 1;
  }
//@ after let mut q = BigUint
  proof {
    // whatever the digit, it must not over-estimate
    assert(q_digit >= 1);
    assert((q_digit * bp(q_index as int)) * val(b.value@) <= val(a.value@));
  }
//@ before let m =
  proof { val_unit(q.value@, q_digit); val_norm_lo(q.value@); }
//@ after let m =
  proof {
    assert(val(m.value@) <= val(a.value@)) by { let (x, y) = (val(q.value@), val(b.value@)); assert(x * y == y * x) by(nonlinear_arith); }
    len_le(m.value@, a.value@);
    let (x, y, z) = (val(result.value@), val(q.value@), val(b.value@));
    assert((x + y) * z == x * z + y * z) by(nonlinear_arith);
    assert(y * z >= 1) by(nonlinear_arith) requires y >= 1, z >= 1;
    assert(y * z == z * y) by(nonlinear_arith);
  }
//@ fn <Div for &BigUint>::div
  requires un(*self), un(*b), uv(*b) != 0
  ensures un(res), uv(res) == uv(*self) / uv(*b)
//@ head impl BigUint
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigUint
//@ sub fn div => fn vop_div
//@ opcall
//@ start
  proof { u_sign(*b); }
//@ fn BigUint::pow_u64
  requires un(*self)
  ensures un(res), uv(res) == ipow(uv(*self), exp as int)
//@ attr #[verifier::loop_isolation(false)]
//@ opcall
//@ start
  let ghost (e0, x) = (exp as int, uv(*self));
  proof { u_sign(*self); assert(1 * ipow(x, e0) == ipow(x, e0)); }
//@ loop 0
  invariant
    norm(res.value@), norm(b.value@), val(res.value@) >= 0, val(b.value@) >= 0,
    val(res.value@) * ipow(val(b.value@), exp as int) == ipow(x, e0),
  decreases exp
//@ loop 0 start
  proof {
    let (r, bb) = (exp, val(b.value@));
    assert(r & 1 == r % 2 && r >> 1 == r / 2) by(bit_vector);
    assert(val(res.value@) * 1 == val(res.value@));
    ipow_sq(bb, r as int / 2);
    if r % 2 == 1 { ipow_step(bb, r as int - 1); let (v, q) = (val(res.value@), ipow(bb, r as int - 1)); assert(v * (bb * q) == (v * bb) * q) by(nonlinear_arith); assert(v * bb >= 0 && bb * v == v * bb) by(nonlinear_arith) requires v >= 0, bb >= 0; }
    assert(bb * bb >= 0) by(nonlinear_arith) requires bb >= 0;
  }
//@ fn BigUint::pow
  requires un(*self), un(*exp), uv(*self) > 1 ==> uv(*exp) < BB()
  ensures un(res), uv(res) == ipow(uv(*self), uv(*exp))
//@ start
  proof {
    u_ops(*self, *exp); let k = uv(*exp);
    assert(bp(0) == 1); assert(bp(1) == BB()); ipow_one(k); if k > 0 { ipow_zero(k); }
    if exp.value@.len() > 1 { val_norm_lo(exp.value@); bp_mono(1, exp.value@.len() - 1); }
    if exp.value@.len() == 1 { val_single(exp.value@[0]); assert(exp.value@ =~= seq![exp.value@[0]]); }
    one_iff(*self);
  }
//@ fn <Shl for &BigUint>::shl
  requires un(*self), un(*rhs), uv(*self) != 0 ==> uv(*rhs) < BB()
  ensures un(res), uv(res) == uv(*self) * p2(uv(*rhs))
//@ head impl BigUint
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigUint
//@ sub fn shl => fn vop_shl
//@ opcall
//@ trunc
//@ start
  proof { u_ops(*self, *rhs); sh_facts(*self, *rhs); }
//@ before if shift_mod > 0
  let ghost orig = value@;
  proof { p2_64(); assert(val(orig) * 1 == val(orig)); }
//@ loop 0
  vst0.n() == orig.len(), !vst0.inf(), orig.len() > 0, len == orig.len(), 0 < shift_mod < 64,
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == orig.len() - 1 - i,
  value@.len() == orig.len() + 1,
  forall|j: int| 0 <= j < orig.len() - vk0 ==> value@[j] == orig[j],
  value@[orig.len() - vk0] & msk(shift_mod) == 0,
  vk0 <= vst0.n(),
  val(value@) == vpre(orig, orig.len() - vk0) + p2(shift_mod as int) * (val(orig) - vpre(orig, orig.len() - vk0)),
//@ loop 0 before
  proof {
    val_push(orig, 0); let m = msk(shift_mod); assert(0 & m == 0) by(bit_vector); assert(value@ =~= orig.push(0));
    let q = p2(shift_mod as int); assert(q * 0 == 0);
  }
//@ loop 0 start
  let ghost v0 = value@;
  proof { assert(vst0.at(vk0 - 1) == orig.len() - vk0); assert(i == orig.len() - vk0); shl128(value@[i as int], shift_mod); shl_bits(value@[i as int], value@[i + 1], shift_mod); }
//@ loop 0 end
  proof {
    let (h, l) = ((digit >> 64) as u64, digit as u64);
    let v1 = v0.update(i + 1, (v0[i + 1] | h));
    val_update(v0, i + 1, (v0[i + 1] | h));
    val_update(v1, i as int, l);
    assert(value@ =~= v1.update(i as int, l));
    let x = orig[i as int];
    assert(x * p2(shift_mod as int) == BB() * h + l);
    shl_step(val(v0), x as int, h as int, l as int, bp(i as int), vpre(orig, i as int), val(orig), p2(shift_mod as int));
  }
//@ before let number_of_zeros
  let ghost vs = value@;
  proof { let (q, v) = (p2(shift_mod as int), val(orig)); assert(val(vs) == val(orig) * p2(shift_mod as int)) by { assert(v * q == q * (v - 0)) by(nonlinear_arith); } }
//@ before let mut res
  proof {
    let n = number_of_zeros as int;
    let (a, b, c) = (p2(shift_mod as int), p2(64 * n), val(orig));
    bp_p2(n); ipow_add(2, shift_mod as int, 64 * n);
    p2_pos(rhs.value@[0] as int);
    assert(val(value@) == c * p2(rhs.value@[0] as int)) by {
      assert(b * (c * a) == c * (a * b)) by(nonlinear_arith);
      assert(n == 0 ==> b == 1);
      if b == 1 { assert(c * (a * b) == c * a); }
    }
    let p = p2(rhs.value@[0] as int);
    assert((-c) * p == -(c * p)) by(nonlinear_arith);
    assert(c * p >= c) by(nonlinear_arith) requires c >= 0, p >= 1;
  }
//@ after zeros_vector.extend(value)
  proof { assert(zeros_vector@ =~= zeros_vector@.take(number_of_zeros as int) + vs); val_prepend_zeros(zeros_vector@.take(number_of_zeros as int), vs); }
//@ fn <Shr for &BigUint>::shr
  requires un(*self), un(*rhs)
  ensures un(res), uv(res) == uv(*self) / p2(uv(*rhs))
//@ head impl BigUint
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigUint
//@ sub fn shr => fn vop_shr
//@ opcall
//@ start
  let ghost n0 = (if rhs.value@.len() == 1 { rhs.value@[0] as int / 64 } else { 0 });
  proof { u_ops(*self, *rhs); sh_facts(*self, *rhs); bp_p2(n0);
    let l = self.value@;
    if l.len() > 0 { val_norm_lo(l); }
    if rhs.value@.len() == 1 && n0 >= l.len() { bp_mono(l.len() as int, n0); val_bound(l); ipow_mono(2, 64 * n0, rhs.value@[0] as int);
       let p = p2(rhs.value@[0] as int); let x = val(l);
       floor_div(x, p, 0, x); }
  }
//@ before value = value.split_off
  let ghost w = value@;
  proof { val_skip(w, number_to_remove as int); bp_pos(n0); val_bound(w.skip(n0)); }
//@ before let shift_mod
  let ghost v = value@;
  proof { let (a, b) = (bp(n0), val(v)); assert(a * b == b * a) by(nonlinear_arith); assert(v =~= w.skip(n0)); floor_div(val(w), bp(n0), val(v), vpre(w, n0)); }
//@ before if shift_mod > 0
  proof { p2_64(); val_bound(v); vstd::arithmetic::div_mod::lemma_div_basics(val(v)); assert(shift_mod == 0 ==> val(value@) == val(v) / p2(shift_mod as int)); if shift_mod > 0 { p2_shl(shift_mod); } }
//@ loop 0
  invariant_except_break
    i < len, value@.len() == len,
    forall|j: int| i <= j < len ==> value@[j] == v[j],
    vpre(value@, i as int) * p2(shift_mod as int) + (v[0] & mask) == vpre(v, i as int) + (v[i as int] & mask) * bp(i as int),
  invariant
    0 < shift_mod < 64, len == v.len(), mask == msk(shift_mod),
  ensures i == len, value@.len() == len, val(value@) == val(v) / p2(shift_mod as int)
  decreases len - i
//@ loop 0 before
  proof { assert(0 * p2(shift_mod as int) == 0); assert((v[0] & mask) * bp(0) == v[0] & mask); }
//@ loop 0 start
  let ghost v1 = value@; let ghost i1 = i as int;
  proof { shr_bits(value@[i as int], shift_mod); shr_bits(v[0], shift_mod); if i1 + 1 < len { shr_or(value@[i1], value@[i1 + 1], shift_mod); } }
//@ before if i == len
  proof {
    let q = p2(shift_mod as int);
    let x = v[i1]; let d = x >> shift_mod; let p = bp(i1);
    vpre_same(value@, v1, i1);
    let (a, c, b, e) = (vpre(v1, i1), (v[0] & mask) as int, vpre(v, i1), (x & mask) as int);
    let dd = d as int; let xx = x as int;
    assert((a + dd * p) * q + c == b + xx * p) by(nonlinear_arith) requires a * q + c == b + e * p, dd * q + e == xx;
    if i == len {
      assert(val(value@) * q + c == val(v));
      floor_div(val(v), q, val(value@), c);
    }
  }
//@ loop 0 end
  proof {
    let q = p2(shift_mod as int);
    let x = v[i1]; let d = x >> shift_mod; let p = bp(i1);
    let y = v[i1 + 1] & mask; let z = y << ((64 - shift_mod) as u64);
    vpre_same(value@, v1, i1);
    assert(value@[i1] == d + z);
    let (a, c, b, e) = (vpre(v1, i1), (v[0] & mask) as int, vpre(v, i1), (x & mask) as int);
    let (dd, xx, yy, zz) = (d as int, x as int, y as int, z as int);
    assert((a + (dd + zz) * p) * q + c == (b + xx * p) + yy * (BB() * p)) by(nonlinear_arith) requires a * q + c == b + e * p, dd * q + e == xx, zz * q == yy * BB();
  }
//@ before let mut res
  proof {
    let s = shift_mod as int;
    assert(val(value@) == val(v) / p2(s));
    bp_p2(n0); ipow_add(2, 64 * n0, s); p2_pos(s); bp_pos(n0);
    div_div(val(w), bp(n0), p2(s));
    val_bound(value@);
  }
//@ raw
pub proof fn one_iff(x: BigUint) requires un(x) ensures (uv(x) == 1) == (x.value@.len() == 1 && x.value@[0] == 1) {
    let v = x.value@;
    assert(bp(0) == 1); assert(bp(1) == BB());
    if v.len() == 1 { val_single(v[0]); assert(v =~= seq![v[0]]); }
    if v.len() > 1 { val_norm_lo(v); bp_mono(1, v.len() - 1); }
}
pub proof fn sh_facts(x: BigUint, y: BigUint) requires un(x), un(y)
  ensures
    p2(0) == 1, uv(x) * 1 == uv(x), uv(x) / 1 == uv(x), 0 * p2(uv(y)) == 0, 0int / p2(uv(y)) == 0, p2(uv(y)) >= 1,
    y.value@.len() > 1 ==> uv(y) >= BB() && uv(x) / p2(uv(y)) == 0,
    y.value@.len() == 1 ==> y.value@[0] == uv(y) && y.value@[0] & 63 == y.value@[0] % 64, (1u64 << 6) - 1 == 63,
{
    u_sign(x); u_sign(y); p2_64(); p2_pos(uv(y)); mod64(0);
    if y.value@.len() == 1 { val_single(y.value@[0]); assert(y.value@ =~= seq![y.value@[0]]); mod64(y.value@[0]); }
    let a = p2(uv(y));
    floor_div(0, a, 0, 0);
    vstd::arithmetic::div_mod::lemma_div_basics(uv(x));
    if y.value@.len() > 1 {
        val_norm_lo(y.value@); bp_mono(1, y.value@.len() - 1);
        assert(bp(1) == BB()) by { assert(bp(0) == 1); }
        let n = uv(y); let l = x.value@;
        val_bound(l);
        assert(l.len() <= MAXLIMBS()) by { axiom_vec_len(x.value); }
        p2_huge(n, l.len() as int);
        floor_div(uv(x), p2(n), 0, uv(x));
    }
}
//@ file nanvm-lib/src/big_numbers/big_int.rs
//@ constfn BigInt::ZERO bigint_zero
  ensures iw(res), iv(res) == 0
//@ fn BigInt::normalize
  ensures iw(*final(self)), iv(*final(self)) == iv(*old(self))
//@ after self.value.normalize
  proof { u_sign(self.value); }
//@ fn BigInt::is_zero
  ensures iw(*self) ==> res == (iv(*self) == 0), res == (self.value.value@.len() == 0)
//@ fn BigInt::new
  ensures res.sign == sign, res.value == value, iv(res) == sg(sign, uv(value))
//@ fn BigInt::from_u64
  ensures iw(res), iv(res) == n
//@ fn BigInt::abs
  ensures iw(self) ==> iw(res), iw(self) ==> iv(res) == iabs(iv(self))
//@ start
  proof { if un(self.value) { u_sign(self.value); } }
//@ fn BigInt::from_i64
  ensures iw(res), iv(res) == n
//@ fn BigInt::div_mod
  requires iw(*self), iw(*d), iv(*d) != 0
  ensures iw(res.0), iw(res.1),
    iabs(iv(res.0)) == iabs(iv(*self)) / iabs(iv(*d)), iv(res.0) != 0 ==> ((iv(res.0) < 0) <==> ((iv(*self) < 0) != (iv(*d) < 0))),
    iabs(iv(res.1)) == iabs(iv(*self)) % iabs(iv(*d)), iv(res.1) != 0 ==> ((iv(res.1) < 0) <==> (iv(*self) < 0)),
//@ start
  proof { i_ops(*self, *d); }
//@ before let mut q
  proof { u_sign(q); u_sign(r); }
//@ fn <Add for &BigInt>::add
  requires iw(*self), iw(*other)
  ensures iw(res), iv(res) == iv(*self) + iv(*other)
//@ head impl BigInt
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigInt
//@ sub fn add => fn vop_add
//@ opcall
//@ start
  proof { i_ops(*self, *other); }
//@ fn <Neg for BigInt>::neg
  requires iw(self)
  ensures iw(res), iv(res) == -iv(self)
//@ head impl BigInt
//@ sub Self::Output => BigInt
//@ sub fn neg => fn vop_neg
//@ start
  proof { u_sign(self.value); }
//@ fn <Sub for BigInt>::sub
  requires iw(self), iw(other)
  ensures iw(res), iv(res) == iv(self) - iv(other)
//@ head impl BigInt
//@ sub Self::Output => BigInt
//@ sub fn sub => fn vop_sub
//@ sub self.add(&-other) => self.vop_add(&other.vop_neg())
//@ fn <Default for Sign>::default
  ensures res is Positive
//@ head impl Sign
//@ fn <PartialOrd for Sign>::partial_cmp
  ensures res is Some,
    res == Some(Ordering::Less) <==> sgn(*self) < sgn(*other),
    res == Some(Ordering::Greater) <==> sgn(*self) > sgn(*other)
//@ head impl Sign
//@ fn <Ord for Sign>::cmp
  ensures
    res == Ordering::Less <==> sgn(*self) < sgn(*other),
    res == Ordering::Greater <==> sgn(*self) > sgn(*other),
    res == Ordering::Equal <==> sgn(*self) == sgn(*other),
//@ head impl Sign
//@ fn <PartialOrd for BigInt>::partial_cmp
  requires iw(*self), iw(*other)
  ensures res is Some,
    res == Some(Ordering::Less) <==> iv(*self) < iv(*other),
    res == Some(Ordering::Greater) <==> iv(*self) > iv(*other),
    res == Some(Ordering::Equal) <==> iv(*self) == iv(*other)
//@ head impl BigInt
//@ fn <Ord for BigInt>::cmp
  requires iw(*self), iw(*other)
  ensures
    res == Ordering::Less <==> iv(*self) < iv(*other),
    res == Ordering::Greater <==> iv(*self) > iv(*other),
    res == Ordering::Equal <==> iv(*self) == iv(*other),
    res == Ordering::Equal <==> self.sign == other.sign && self.value.value@ == other.value.value@,
//@ head impl BigInt
//@ start
  proof { i_ops(*self, *other); }
//@ fn <Mul for &BigInt>::mul
  requires iw(*self), iw(*other)
  ensures iw(res), iv(res) == iv(*self) * iv(*other)
//@ head impl BigInt
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigInt
//@ sub fn mul => fn vop_mul
//@ opcall
//@ start
  proof { i_ops(*self, *other); sign_mul(uv(self.value), uv(other.value)); let (a, b) = (uv(self.value), uv(other.value)); assert((-a) * b == -(a * b) && a * (-b) == -(a * b) && (-a) * (-b) == a * b) by(nonlinear_arith); }
//@ fn <Div for &BigInt>::div
  requires iw(*self), iw(*d), iv(*d) != 0
  ensures iw(res), iabs(iv(res)) == iabs(iv(*self)) / iabs(iv(*d)), iv(res) != 0 ==> ((iv(res) < 0) <==> ((iv(*self) < 0) != (iv(*d) < 0)))
//@ head impl BigInt
//@ sub (self, other: Self) => (&self, other: &Self)
//@ sub (self, rhs: Self) => (&self, rhs: &Self)
//@ sub (self, b: Self) => (&self, b: &Self)
//@ sub Self::Output => BigInt
//@ sub fn div => fn vop_div
//@ opcall
//@ sub (self, d: Self) => (&self, d: &Self)
//@ start
  proof { i_ops(*self, *d); }
//@ before let mut result
  proof { u_sign(value); }
//@ raw
pub proof fn i_ops(x: BigInt, y: BigInt) requires iw(x), iw(y)
  ensures u_sig(x.value), u_sig(y.value), uv(x.value) == iabs(iv(x)), uv(y.value) == iabs(iv(y)), uv(x.value) == uv(y.value) ==> x.value.value@ == y.value.value@
{ u_ops(x.value, y.value); }
pub proof fn sign_mul(a: int, b: int) requires a >= 0, b >= 0
  ensures a * b >= 0, a * b == 0 <==> (a == 0 || b == 0)
{ assert(a * b >= 0 && (a * b == 0 <==> (a == 0 || b == 0))) by(nonlinear_arith) requires a >= 0, b >= 0; }
}
fn main() {}
