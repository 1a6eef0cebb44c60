//@ include js_core.vrs
//@ include dec_spec.vrs
//@ raw
// ---------------------------------------------------------------------------------------------
// binary and decimal floats with a big significand
// ---------------------------------------------------------------------------------------------
impl<T, D> MutRef<T, D> {
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &T) ensures *r == self.res() { &self.t }
}
// the rational n/d lies in the cell of s * 2^e: s * 2^e <= n/d < (s + 1) * 2^e, `r` tells a remainder is left
#[verifier::opaque]
pub open spec fn cell(s: int, e: int, r: bool, n: int, d: int) -> bool {
    &&& d > 0 && n >= 0 && s >= 0
    &&& s * p2(e) * d <= n * p2(-e) < (s + 1) * p2(e) * d
    &&& (r <==> s * p2(e) * d != n * p2(-e))
}
pub proof fn p2_step(e: int) ensures p2(e) >= 1, p2(-e) >= 1, e >= 0 ==> p2(e + 1) == 2 * p2(e) && p2(-e) == 1 && p2(-(e + 1)) == 1, e < 0 ==> p2(-e) == 2 * p2(-(e + 1)) && p2(e) == 1 && p2(e + 1) == 1
{ p2_pos(e); p2_pos(-e); }
pub proof fn cell_half(s: int, e: int, r: bool, n: int, d: int) requires cell(s, e, r, n, d)
    ensures cell(s / 2, e + 1, r || s % 2 == 1, n, d)
{
    reveal(cell);
    p2_step(e);
    let t = s / 2; let b = s % 2;
    assert(s == 2 * t + b);
    if e >= 0 {
        let x = p2(e) * d;
        assert(x > 0) by(nonlinear_arith) requires x == p2(e) * d, p2(e) >= 1, d > 0;
        assert(s * p2(e) * d == s * x && (s + 1) * p2(e) * d == (s + 1) * x && t * p2(e + 1) * d == 2 * t * x && (t + 1) * p2(e + 1) * d == 2 * (t + 1) * x) by(nonlinear_arith) requires x == p2(e) * d, p2(e + 1) == 2 * p2(e);
        assert(s * x == 2 * t * x + b * x && (s + 1) * x == 2 * t * x + b * x + x && 2 * (t + 1) * x == 2 * t * x + 2 * x) by(nonlinear_arith) requires s == 2 * t + b;
        assert(b * x == (if b == 1 { x } else { 0 })) by(nonlinear_arith) requires b == 0 || b == 1;
    } else {
        let y = n * p2(-(e + 1));
        assert(n * p2(-e) == 2 * y) by(nonlinear_arith) requires y == n * p2(-(e + 1)), p2(-e) == 2 * p2(-(e + 1));
        assert(s * d == 2 * (t * d) + b * d && (s + 1) * d == 2 * (t * d) + b * d + d && (t + 1) * d == t * d + d) by(nonlinear_arith) requires s == 2 * t + b;
        assert(b * d == (if b == 1 { d } else { 0 })) by(nonlinear_arith) requires b == 0 || b == 1;
        assert(s * p2(e) * d == s * d && (s + 1) * p2(e) * d == (s + 1) * d && t * p2(e + 1) * d == t * d && (t + 1) * p2(e + 1) * d == (t + 1) * d);
    }
}
pub proof fn cell_double(s: int, e: int, n: int, d: int) requires cell(s, e, false, n, d)
    ensures cell(2 * s, e - 1, false, n, d)
{
    reveal(cell);
    p2_step(e - 1);
    let x = p2(e - 1); let y = p2(-(e - 1));
    if e - 1 >= 0 {
        assert((2 * s) * x * d == s * (2 * x) * d && (2 * s + 1) * x * d == s * (2 * x) * d + x * d && x * d > 0) by(nonlinear_arith) requires x >= 1, d > 0;
    } else {
        assert(n * y == 2 * (n * p2(-e))) by(nonlinear_arith) requires y == 2 * p2(-e);
        assert((2 * s) * d == 2 * (s * d) && (2 * s + 1) * d == 2 * (s * d) + d) by(nonlinear_arith);
        assert(s * p2(e) * d == s * d && (2 * s) * x * d == (2 * s) * d && (2 * s + 1) * x * d == (2 * s + 1) * d);
    }
}
pub open spec fn sig<const BASE: u32, M: Manager>(x: BigFloat<BASE, M>) -> int { bi(x.significand.res()) }
pub open spec fn bf_ok<const BASE: u32, M: Manager>(x: BigFloat<BASE, M>) -> bool { wf(x.significand.res()) && sig(x) >= 0 }
// the value of a base-2 float as a cell
pub open spec fn is2<M: Manager>(x: BigFloat<2, M>, n: int, d: int) -> bool { cell(sig(x), x.exp as int, x.non_zero_reminder, n, d) }
pub open spec fn XMAX() -> int { 0x3fff_ffff_ffff_ffff }
//@ file nanvm-lib/src/big_numbers/big_float.rs
//@ gsub significand.get_last_bit() => significand.deref().get_last_bit()
//@ gsub significand.items() => significand.deref().items()
//@ item struct BigFloat
//@ fn float_zero
  ensures bf_ok(res), sig(res) == 0, res.exp == 0, res.sign == Sign::Positive, !res.non_zero_reminder
//@ fn BigFloat::increase_significand_to
  requires bf_ok(*old(self)), wf(*min_significand), bi(*min_significand) >= 0, -XMAX() <= old(self).exp <= XMAX()
  ensures
    bf_ok(*final(self)), final(self).sign == old(self).sign, final(self).non_zero_reminder == old(self).non_zero_reminder,
    final(self).manager == old(self).manager,
    exists|k: int| #[trigger] upk(*old(self), *final(self), k),
    sig(*old(self)) != 0 ==> sig(*final(self)) >= bi(*min_significand),
    sig(*old(self)) >= bi(*min_significand) ==> *final(self) == *old(self),
    forall|n: int, d: int| !old(self).non_zero_reminder && #[trigger] cell(sig(*old(self)), old(self).exp as int, false, n, d) ==> cell(sig(*final(self)), final(self).exp as int, false, n, d),
//@ attr #[verifier::loop_isolation(false)]
//@ start
  let ghost s0 = *self;
  proof { wf_sign(self.significand.res()); p2_64(); assert(upk(s0, s0, 0)) by { assert(sig(s0) * 1 == sig(s0)); } }
//@ loop 0
  invariant
    bf_ok(*self), self.sign == s0.sign, self.non_zero_reminder == s0.non_zero_reminder, self.manager == s0.manager,
    sig(s0) > 0, upk(s0, *self, s0.exp - self.exp), sig(*self) > 0,
    *self == s0 || sig(*self) < 2 * bi(*min_significand),
    sig(s0) >= bi(*min_significand) ==> *self == s0,
    forall|n: int, d: int| !s0.non_zero_reminder && #[trigger] cell(sig(s0), s0.exp as int, false, n, d) ==> cell(sig(*self), self.exp as int, false, n, d),
  decreases (if sig(*self) >= bi(*min_significand) { 0 } else { bi(*min_significand) - sig(*self) })
//@ loop 0 start
  let ghost s1 = *self;
//@ before self.exp -= 1
  proof {
    let k = s0.exp - s1.exp;
    assert(p2(1) == 2) by { assert(p2(0) == 1); }
    assert(sig(s1) * p2(1) == 2 * sig(s1)) by(nonlinear_arith) requires p2(1) == 2;
    assert(sig(*self) == 2 * sig(s1));
    assert(p2(k + 1) == 2 * p2(k));
    let (a, b) = (sig(s0), p2(k)); assert(a * (2 * b) == 2 * (a * b)) by(nonlinear_arith);
    p2_pos(k); assert(b <= a * b) by(nonlinear_arith) requires a >= 1, b >= 1;
    up_bound(*min_significand, k);
    assert forall|n: int, d: int| !s0.non_zero_reminder && #[trigger] cell(sig(s0), s0.exp as int, false, n, d) implies cell(2 * sig(s1), s1.exp - 1, false, n, d) by { cell_double(sig(s1), s1.exp as int, n, d); }
  }
//@ fn BigFloat::increase_significand
  requires bf_ok(*old(self)), -XMAX() <= old(self).exp <= XMAX(), precision < 0x1000
  ensures
    bf_ok(*final(self)), final(self).sign == old(self).sign, final(self).non_zero_reminder == old(self).non_zero_reminder,
    final(self).manager == old(self).manager,
    exists|k: int| #[trigger] upk(*old(self), *final(self), k),
    sig(*old(self)) == 0 ==> sig(*final(self)) == 0,
    sig(*old(self)) != 0 ==> sig(*final(self)) >= p2(precision as int),
    sig(*old(self)) >= p2(precision as int) ==> *final(self) == *old(self),
    forall|n: int, d: int| !old(self).non_zero_reminder && #[trigger] cell(sig(*old(self)), old(self).exp as int, false, n, d) ==> cell(sig(*final(self)), final(self).exp as int, false, n, d),
//@ start
  proof { wf_sign(self.significand.res()); p2_64(); p2_pos(precision as int); assert(upk(*self, *self, 0)) by { assert(sig(*self) * 1 == sig(*self)); } }
//@ before self.increase_significand_to
  proof { assert(1 * p2(precision as int) == p2(precision as int)); }
//@ fn BigFloat::decrease_significand
  requires bf_ok(*old(self)), -XMAX() <= old(self).exp <= XMAX(), 0 < precision < 0x1000
  ensures
    bf_ok(*final(self)), final(self).sign == old(self).sign,
    final(self).manager == old(self).manager,
    exists|k: int| #[trigger] downk(*old(self), *final(self), k),
    sig(*final(self)) < p2(precision as int),
    sig(*old(self)) < p2(precision as int) ==> *final(self) == *old(self),
    sig(*old(self)) >= p2(precision as int) ==> 2 * sig(*final(self)) >= p2(precision as int),
    forall|n: int, d: int| #[trigger] cell(sig(*old(self)), old(self).exp as int, old(self).non_zero_reminder, n, d) ==> cell(sig(*final(self)), final(self).exp as int, final(self).non_zero_reminder, n, d),
//@ attr #[verifier::loop_isolation(false)]
//@ start
  let ghost s0 = *self;
  proof { wf_sign(self.significand.res()); p2_64(); p2_pos(precision as int); vstd::arithmetic::div_mod::lemma_div_basics(sig(s0)); assert(downk(s0, s0, 0)); }
//@ loop 0
  invariant
    bf_ok(*self), self.sign == s0.sign, self.manager == s0.manager,
    sig(s0) > 0, downk(s0, *self, self.exp - s0.exp), sig(*self) > 0,
    sig(s0) < p2(precision as int) ==> *self == s0,
    sig(s0) >= p2(precision as int) ==> 2 * sig(*self) >= p2(precision as int),
    bi(max_significand.res()) == p2(precision as int), wf(max_significand.res()),
    forall|n: int, d: int| #[trigger] cell(sig(s0), s0.exp as int, s0.non_zero_reminder, n, d) ==> cell(sig(*self), self.exp as int, self.non_zero_reminder, n, d),
  decreases sig(*self)
//@ loop 0 start
  let ghost s1 = *self;
//@ before self.exp += 1
  proof {
    let k = s1.exp - s0.exp;
    assert(p2(1) == 2) by { assert(p2(0) == 1); }
    assert(sig(*self) == sig(s1) / 2);
    p2_pos(k); p2_pos(1);
    div_div(sig(s0), p2(k), 2);
    assert(p2(k + 1) == 2 * p2(k));
    assert(p2(k) * 2 == 2 * p2(k));
    let p = precision as int;
    assert(p2(p) == 2 * p2(p - 1)) by { assert(p2(p) == 2 * p2(p - 1)); }
    down_bound(s0.significand.res(), k);
    assert forall|n: int, d: int| #[trigger] cell(sig(s0), s0.exp as int, s0.non_zero_reminder, n, d) implies cell(sig(s1) / 2, s1.exp + 1, s1.non_zero_reminder || sig(s1) % 2 == 1, n, d) by { cell_half(sig(s1), s1.exp as int, s1.non_zero_reminder, n, d); }
  }
//@ raw
pub proof fn down_bound(m: JsBigint, k: int) requires wf(m), k >= 0, bi(m) >= 0, bi(m) / p2(k) > 0 ensures k <= 0x0f00_0000_0000_0000 {
    wf_sign(m); axiom_bigint_len(&m); val_bound(m.sitems());
    let l = m.sitems().len() as int;
    bp_p2(l); p2_pos(k);
    if k > 0x0f00_0000_0000_0000 { ipow_mono(2, 64 * l, k); floor_div(bi(m), p2(k), 0, bi(m)); }
}
pub open spec fn upk<const BASE: u32, M: Manager>(a: BigFloat<BASE, M>, b: BigFloat<BASE, M>, k: int) -> bool { k >= 0 && k <= 0x0fff_ffff_ffff_ffff && b.exp == a.exp - k && sig(b) == sig(a) * p2(k) }
pub open spec fn downk<const BASE: u32, M: Manager>(a: BigFloat<BASE, M>, b: BigFloat<BASE, M>, k: int) -> bool { k >= 0 && k <= 0x0fff_ffff_ffff_ffff && b.exp == a.exp + k && sig(b) == sig(a) / p2(k) }
pub proof fn up_bound(m: JsBigint, k: int) requires wf(m), k >= 0, bi(m) >= 0, p2(k) < 2 * bi(m) ensures k <= 0x0f00_0000_0000_0000 {
    wf_sign(m); axiom_bigint_len(&m); val_bound(m.sitems());
    let l = m.sitems().len() as int;
    bp_p2(l);
    if k > 0x0f00_0000_0000_0000 { ipow_mono(2, 64 * l + 1, k); assert(p2(64 * l + 1) == 2 * p2(64 * l)); }
}
// the rational a decimal float denotes
pub open spec fn num10<M: Manager>(x: BigFloat<10, M>) -> int { sig(x) * ipow(10, x.exp as int) }
pub open spec fn den10<M: Manager>(x: BigFloat<10, M>) -> int { ipow(10, -(x.exp as int)) }
pub proof fn ipow_mul(a: int, b: int, k: int) ensures ipow(a * b, k) == ipow(a, k) * ipow(b, k) decreases k {
    if k > 0 { ipow_mul(a, b, k - 1); let (x, y) = (ipow(a, k - 1), ipow(b, k - 1)); assert((a * b) * (x * y) == (a * x) * (b * y)) by(nonlinear_arith); }
}
pub proof fn cell_exact(s: int, e: int, m: int) requires s >= 0, e >= 0, m == s * ipow(5, e) ensures cell(m, e, false, s * ipow(10, e), 1) {
    reveal(cell); ipow_mul(2, 5, e); p2_step(e); let (a, b) = (ipow(5, e), p2(e));
    assert((s * a) * b * 1 == s * (b * a)) by(nonlinear_arith);
    assert((s * a + 1) * b * 1 == s * (b * a) + b) by(nonlinear_arith);
    ipow_pos(5, e); assert(s * (b * a) >= 0) by(nonlinear_arith) requires s >= 0, a >= 1, b >= 1;
    assert(s * (b * a) * 1 == s * (b * a));
}
// dividing the shifted significand by 5^k
pub proof fn cell_div(s: int, k: int, j: int, q: int, r: int)
    requires s >= 0, k >= 0, j >= 0, s * p2(j) == q * ipow(5, k) + r, 0 <= r < ipow(5, k), q >= 0
    ensures cell(q, -k - j, r != 0, s, ipow(10, k))
{
    reveal(cell); ipow_mul(2, 5, k); p2_pos(k); p2_pos(j); ipow_pos(5, k); ipow_add(2, k, j); ipow_pos(10, k);
    let (f, a, b) = (ipow(5, k), p2(k), p2(j));
    let e = -k - j; let d = ipow(10, k);
    assert(p2(-e) == a * b);
    assert(p2(e) == 1);
    assert(q * p2(e) * d == (q * f) * a) by(nonlinear_arith) requires p2(e) == 1, d == a * f;
    assert((q + 1) * p2(e) * d == (q * f) * a + f * a) by(nonlinear_arith) requires p2(e) == 1, d == a * f;
    assert(s * p2(-e) == (q * f) * a + r * a) by(nonlinear_arith) requires p2(-e) == a * b, s * b == q * f + r;
    assert(0 <= r * a < f * a && (r * a == 0 <==> r == 0)) by(nonlinear_arith) requires 0 <= r < f, a >= 1;
}
//@ fn BigFloat::to_bin
  requires bf_ok(self), !self.non_zero_reminder, -0x1000_0000_0000_0000 <= self.exp <= 0x1000_0000_0000_0000, 0 < precision
  ensures
    bf_ok(res), res.sign == self.sign, sig(self) == 0 <==> sig(res) == 0,
    -0x3000_0000_0000_0000 <= res.exp <= 0x3000_0000_0000_0000,
    sig(res) < p2(precision as int),
    sig(res) != 0 ==> 2 * sig(res) >= p2(precision as int),
    sig(self) != 0 ==> is2(res, num10(self), den10(self)),
    sig(self) == 0 ==> !res.non_zero_reminder && res.exp == 0,
//@ start
  let ghost (s, e) = (sig(self), self.exp as int);
  proof { wf_sign(self.significand.res()); p2_pos(precision as int); assert(ipow(10, 0) == 1); assert(s * 1 == s); if e >= 0 { ipow_pos(5, e); assert(s > 0 ==> s * ipow(5, e) > 0) by(nonlinear_arith) requires ipow(5, e) >= 1; cell_exact(s, e, s * ipow(5, e)); } else { ipow_pos(5, -e); assert(ipow(10, e) == 1); } }
//@ before #0 result.increase_significand
  proof { assert(s * ipow(5, 0) == s) by { assert(ipow(5, 0) == 1); } assert(is2(result, num10(self), den10(self))); }
//@ before #1 result.increase_significand
  proof { assert(sig(result) == s * ipow(5, e)); assert(is2(result, num10(self), den10(self))); }
//@ before #2 result.decrease_significand
  proof { assert(is2(result, num10(self), den10(self))); }
//@ before let (q, r)
  let ghost j = e - bf10.exp;
//@ after let (q, r)
  proof {
    let f = ipow(5, -e);
    assert(bi(five.res()) == 5);
    assert(bi(p.res()) == f);
    assert(f * p2(precision as int) >= f) by(nonlinear_arith) requires f >= 1, p2(precision as int) >= 1;
    assert(sig(bf10) >= f * p2(precision as int));
    assert(sig(bf10) > 0);
    wf_sign(q.res()); wf_sign(r.res());
    let x = sig(bf10);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, f);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, f);
    assert(x == iabs(bi(q.res())) * f + iabs(bi(r.res()))) by(nonlinear_arith) requires x == f * (x / f) + x % f, iabs(bi(q.res())) == x / f, iabs(bi(r.res())) == x % f;
    cell_div(s, -e, j, bi(q.res()), bi(r.res()));
    let (qq, pp) = (x / f, p2(precision as int));
    assert(qq >= pp) by(nonlinear_arith) requires x == f * qq + x % f, x % f < f, x >= f * pp, f >= 1;
    assert(num10(self) == s);
    assert(cell(bi(q.res()), bf10.exp as int, false || bi(r.res()) != 0, num10(self), den10(self)));
  }
//@ raw
pub proof fn fval_at(g: int, f: int)
    requires g >= 0, 0 <= f <= 2 * F52(), g == 0 || f >= F52()
    ensures fval(g * F52() + f) == f * p2(g)
{
    let b = g * F52() + f;
    assert(p2(0) == 1);
    if f < F52() { assert(b == f); assert(f * 1 == f); }
    else if f < 2 * F52() { floor_div(b, F52(), g + 1, f - F52()); }
    else { floor_div(b, F52(), g + 2, 0); assert(p2(g + 1) == 2 * p2(g)); let q = p2(g); assert(F52() * (2 * q) == (2 * F52()) * q) by(nonlinear_arith); }
}
// twice the sums with the neighbours
pub proof fn fval_next(g: int, f: int)
    requires g >= 0, 0 <= f <= 2 * F52(), g == 0 || f >= F52()
    ensures fval(g * F52() + f) == f * p2(g), fval(g * F52() + f + 1) >= (f + 1) * p2(g)
{
    fval_at(g, f);
    if f < 2 * F52() { fval_at(g, f + 1); }
    else { fval_at(g + 1, F52() + 1); assert((g + 1) * F52() + F52() + 1 == g * F52() + f + 1); assert(p2(g + 1) == 2 * p2(g)); p2_pos(g); let q = p2(g);
      assert((F52() + 1) * (2 * q) >= (2 * F52() + 1) * q) by(nonlinear_arith) requires q >= 1; }
}
pub proof fn fval_prev(g: int, f: int)
    requires g >= 0, 0 <= f <= 2 * F52(), g == 0 || f >= F52(), g * F52() + f > 0
    ensures
      g == 0 || f > F52() ==> fval(g * F52() + f - 1) == (f - 1) * p2(g),
      !(g == 0 || f > F52()) ==> fval(g * F52() + f - 1) <= f * p2(g)
{
    if g == 0 || f > F52() { fval_at(g, f - 1); assert(g * F52() + (f - 1) == g * F52() + f - 1); }
    else { fval_at(g - 1, 2 * F52() - 1); assert((g - 1) * F52() + (2 * F52() - 1) == g * F52() + f - 1); assert(p2(g) == 2 * p2(g - 1)); p2_pos(g - 1); let q = p2(g - 1);
      assert((2 * F52() - 1) * q <= F52() * (2 * q)) by(nonlinear_arith) requires q >= 1; }
}
// a cell with exponent g - 1075, in half units
pub proof fn cell_units(s: int, g: int, r: bool, n: int, d: int) requires cell(s, g - 1075, r, n, d), g >= 0
    ensures d > 0, s * (p2(g) * d) <= n * p2(1075) < (s + 1) * (p2(g) * d), r <==> s * (p2(g) * d) != n * p2(1075), p2(g) * d >= 1
{
    reveal(cell);
    let e = g - 1075;
    p2_pos(g); p2_pos(e); p2_pos(-e); p2_pos(1075);
    let x = p2(g) * d;
    assert(x >= 1) by(nonlinear_arith) requires x == p2(g) * d, p2(g) >= 1, d >= 1;
    if e >= 0 {
        ipow_add(2, e, 1075);
        let (a, b) = (p2(e), p2(1075));
        assert(p2(-e) == 1);
        assert(n * 1 == n);
        assert(s * (a * b * d) == (s * a * d) * b && (s + 1) * (a * b * d) == ((s + 1) * a * d) * b) by(nonlinear_arith);
        let (l, h) = (s * a * d, (s + 1) * a * d);
        assert(l * b <= n * b && n * b < h * b && (l == n <==> l * b == n * b)) by(nonlinear_arith) requires l <= n, n < h, b >= 1;
    } else {
        ipow_add(2, -e, g);
        let (a, b) = (p2(-e), p2(g));
        assert(p2(e) == 1);
        assert(s * 1 * d == s * d && (s + 1) * 1 * d == (s + 1) * d) by(nonlinear_arith);
        assert(n * (a * b) == (n * a) * b && s * (b * d) == (s * d) * b && (s + 1) * (b * d) == ((s + 1) * d) * b) by(nonlinear_arith);
        let (l, h, m) = (s * d, (s + 1) * d, n * a);
        assert(l * b <= m * b && m * b < h * b && (l == m <==> l * b == m * b)) by(nonlinear_arith) requires l <= m, m < h, b >= 1;
    }
}
pub open spec fn rhe(s: int, r: bool) -> int { s / 2 + (if s % 2 == 1 && (r || (s / 2) % 2 == 1) { 1int } else { 0 }) }
pub proof fn round_near(s: int, g: int, r: bool, n: int, d: int)
    requires cell(s, g - 1075, r, n, d), g >= 0, g <= 2045, 0 <= s < 4 * F52(), g == 0 || s >= 2 * F52()
    ensures nearest(n, d, g * F52() + rhe(s, r)), 0 <= rhe(s, r) <= 2 * F52(), g == 0 || rhe(s, r) >= F52(),
{
    reveal(nearest);
    cell_units(s, g, r, n, d);
    let f = rhe(s, r); let q = p2(g); let x = n * p2(1075); let b = g * F52() + f; let u = q * d;
    let h = s / 2; let lo = s % 2;
    assert(s == 2 * h + lo);
    assert(b % 2 == f % 2);
    p2_pos(g); fval_next(g, f);
    if b > 0 { fval_prev(g, f); }
    assert(s * u == (2 * h + lo) * u && (s + 1) * u == (2 * h + lo + 1) * u);
    // upper side
    let up = (fval(b) + fval(b + 1)) * d;
    assert(up >= (2 * f + 1) * u) by(nonlinear_arith) requires up == (fval(b) + fval(b + 1)) * d, fval(b) == f * q, fval(b + 1) >= (f + 1) * q, u == q * d, d >= 1, q >= 1;
    assert((2 * h + lo + 1) * u <= (2 * f + 1) * u || (f == h && lo == 1)) by(nonlinear_arith) requires f == h || f == h + 1, lo == 0 || lo == 1, u >= 1, f == h + 1 ==> lo == 1;
    if b > 0 {
        let dn = (fval(b - 1) + fval(b)) * d;
        if g == 0 || f > F52() {
            assert(dn == (2 * f - 1) * u) by(nonlinear_arith) requires dn == (fval(b - 1) + fval(b)) * d, fval(b) == f * q, fval(b - 1) == (f - 1) * q, u == q * d;
            assert((2 * f - 1) * u < (2 * h + lo) * u || (f == h + 1 && lo == 1)) by(nonlinear_arith) requires f == h || (f == h + 1 && lo == 1), lo == 0 || lo == 1, u >= 1;
        } else {
            assert(f == h);
            assert(dn <= (2 * f) * u) by(nonlinear_arith) requires dn == (fval(b - 1) + fval(b)) * d, fval(b) == f * q, fval(b - 1) <= f * q, u == q * d, d >= 1;
            assert((2 * f) * u <= (2 * h + lo) * u) by(nonlinear_arith) requires f == h, lo >= 0, u >= 1;
        }
    }
    assert(b <= INFB());
}
pub proof fn over_near(s: int, g: int, r: bool, n: int, d: int)
    requires cell(s, g - 1075, r, n, d), g >= 2046, s >= 2 * F52()
    ensures nearest(n, d, INFB())
{
    reveal(nearest);
    cell_units(s, g, r, n, d);
    fval_at(2045, 2 * F52()); fval_at(2045, 2 * F52() - 1); p2_pos(2045);
    ipow_mono(2, 2046, g); assert(p2(2046) == 2 * p2(2045));
    let q = p2(2045); let gg = p2(g); let x = n * p2(1075);
    let dn = (fval(INFB() - 1) + fval(INFB())) * d;
    assert(dn <= (4 * F52() * q) * d) by(nonlinear_arith) requires dn == ((2 * F52() - 1) * q + (2 * F52()) * q) * d, q >= 1, d >= 1;
    assert((4 * F52() * q) * d <= s * (gg * d)) by(nonlinear_arith) requires gg >= 2 * q, s >= 2 * F52(), d >= 1, q >= 1;
}
pub proof fn under_near(s: int, g: int, r: bool, n: int, d: int)
    requires cell(s, g - 1075, r, n, d), g < -53, s < 4 * F52()
    ensures nearest(n, d, 0)
{
    reveal(nearest); reveal(cell);
    let e = g - 1075;
    p2_pos(1075); p2_pos(-g); ipow_add(2, 1075, -g); ipow_mono(2, 54, -g); p2_64();
    assert(p2(54) == 4 * F52()) by(compute_only);
    assert(p2(e) == 1);
    let (a, b) = (p2(1075), p2(-g));
    assert(n * (a * b) == (n * a) * b) by(nonlinear_arith);
    assert((s + 1) * 1 * d <= b * d) by(nonlinear_arith) requires s + 1 <= b, d >= 1;
    let x = n * a;
    assert(x < d) by(nonlinear_arith) requires x * b < b * d, b >= 1;
    assert(fval(0) + fval(1) == 1);
    assert(1 * d == d);
}
pub proof fn nearest_zero(d: int) requires d > 0 ensures nearest(0, d, 0) { reveal(nearest); assert(0 * p2(1075) == 0); assert((fval(0) + fval(1)) * d >= 0) by(nonlinear_arith) requires fval(0) == 0, fval(1) == 1, d > 0; }
pub proof fn bits_or(sg: u64, eb: u64, fr: u64) requires sg == 0 || sg == 0x8000_0000_0000_0000, eb < 2048, fr < 0x10_0000_0000_0000
    ensures ((sg | (eb << 52)) | fr) == sg + eb * F52() + fr, (sg | fr) == sg + fr
{
    assert(((sg | (eb << 52)) | fr) == sg + eb * 0x10_0000_0000_0000 + fr && (sg | fr) == sg + fr) by(bit_vector) requires sg == 0 || sg == 0x8000_0000_0000_0000, eb < 2048, fr < 0x10_0000_0000_0000;
}
pub proof fn bits_or2(sg: u64, fr: u64) requires sg == 0 || sg == 0x8000_0000_0000_0000, fr <= 0x7ff0_0000_0000_0000
    ensures (sg | fr) == sg + fr
{
    assert((sg | fr) == sg + fr) by(bit_vector) requires sg == 0 || sg == 0x8000_0000_0000_0000, fr <= 0x7ff0_0000_0000_0000;
}
pub proof fn mask52(f: u64) requires 0x10_0000_0000_0000 <= f < 0x20_0000_0000_0000 ensures f & 0xf_ffff_ffff_ffff == f - 0x10_0000_0000_0000
{ assert(f & 0xf_ffff_ffff_ffff == f - 0x10_0000_0000_0000) by(bit_vector) requires 0x10_0000_0000_0000 <= f < 0x20_0000_0000_0000; }
//@ fn BigFloat::get_frac_round
  requires bf_ok(self), 0 < sig(self) < BB()
  ensures res == rhe(sig(self), self.non_zero_reminder)
//@ start
  proof {
    wf_sign(self.significand.res()); let l = self.significand.res().sitems();
    assert(bp(0) == 1 && bp(1) == BB()); 
    if l.len() > 1 { val_norm_lo(l); bp_mono(1, l.len() - 1); }
    let x = l[0]; assert(x >> 1 == x / 2) by(bit_vector); let y = x >> 1; assert(y & 1 == y % 2) by(bit_vector);
  }
//@ fn BigFloat::get_f64_bits
  requires bf_ok(self), -0x3000_0000_0000_0000 <= self.exp <= 0x3000_0000_0000_0000,
    self.non_zero_reminder ==> sig(self) >= 2 * F52()
  ensures
    sbit(self.sign) <= res <= sbit(self.sign) + INFB(),
    sig(self) == 0 ==> res == sbit(self.sign),
    forall|n: int, d: int| sig(self) != 0 && #[trigger] is2(self, n, d) ==> nearest(n, d, res - sbit(self.sign)),
//@ start
  let ghost s0 = self;
  proof { wf_sign(self.significand.res()); bits_facts(); 
    assert(p2(53) == 2 * F52() && p2(54) == 4 * F52()) by(compute_only); }
//@ before let mut f64_exp
  let ghost v = value; let ghost e0 = value.exp + 53;
  proof { assert forall|n: int, d: int| #[trigger] is2(s0, n, d) implies cell(sig(v), e0 - 53, v.non_zero_reminder, n, d) by {}
    assert forall|n: int, d: int| #[trigger] is2(s0, n, d) && e0 + 1022 < -53 implies nearest(n, d, 0) by { under_near(sig(v), e0 + 1022, v.non_zero_reminder, n, d); } }
//@ before let mut frac = value
  proof { assert forall|n: int, d: int| #[trigger] is2(s0, n, d) implies nearest(n, d, (e0 + 1022) * F52() + rhe(sig(v), v.non_zero_reminder)) by { round_near(sig(v), e0 + 1022, v.non_zero_reminder, n, d); } round_range(sig(v), v.non_zero_reminder); }
  let ghost sg0 = bits;
//@ before let exp_bits
  proof { assert(0x20_0000_0000_0000u64 >> 1 == 0x10_0000_0000_0000) by(bit_vector); mask52(frac); bits_or(sg0, (f64_exp + 1023) as u64, (frac - 0x10_0000_0000_0000) as u64); }
//@ before let frac = value
  let ghost w = value;
  proof {
    let k = choose|k: int| downk(v, w, k);
    assert(downk(v, w, k));
    let sp = e0 + 1076;
    ipow_mono(2, sp, 53);
    sub_shift(sig(v), k, sp, sig(w));
    assert(w.exp == -1075);
    assert forall|n: int, d: int| #[trigger] is2(s0, n, d) implies nearest(n, d, 0 * F52() + rhe(sig(w), w.non_zero_reminder)) by { round_near(sig(w), 0, w.non_zero_reminder, n, d); }
    round_range(sig(w), w.non_zero_reminder);
  }
//@ after let frac = value
  proof { bits_or2(bits, frac); }
//@ before bits |= INF_BITS
  proof { bits_or2(bits, INF_BITS); assert forall|n: int, d: int| #[trigger] is2(s0, n, d) implies nearest(n, d, INFB()) by { over_near(sig(v), e0 + 1022, v.non_zero_reminder, n, d); } }
//@ raw
pub proof fn round_range(s: int, r: bool) requires 0 <= s < 4 * F52() ensures 0 <= rhe(s, r) <= 2 * F52(), s >= 2 * F52() ==> rhe(s, r) >= F52(), s < 2 * F52() ==> rhe(s, r) <= F52() {}
pub proof fn sub_shift(s: int, k: int, sp: int, t: int)
    requires k >= 0, 1 <= sp <= 53, 2 * F52() <= s < 4 * F52(), t == s / p2(k), t < p2(sp), 2 * t >= p2(sp)
    ensures k == 54 - sp
{
    p2_pos(k); p2_pos(sp);
    assert(p2(53) == 2 * F52() && p2(54) == 4 * F52()) by(compute_only);
    let (a, b) = (p2(k), p2(sp));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, a);
    vstd::arithmetic::div_mod::lemma_mod_bound(s, a);
    assert(t * a <= s < (t + 1) * a) by(nonlinear_arith) requires s == a * t + s % a, 0 <= s % a < a;
    ipow_add(2, k, sp);
    if k + sp <= 53 { ipow_mono(2, k + sp, 53); assert((t + 1) * a <= b * a) by(nonlinear_arith) requires t + 1 <= b, a >= 1; assert(a * b == b * a) by(nonlinear_arith); }
    if k + sp >= 55 { ipow_mono(2, 55, k + sp); assert(p2(55) == 8 * F52()) by(compute_only); assert(2 * (t * a) >= a * b) by(nonlinear_arith) requires 2 * t >= b, a >= 1; }
}
pub proof fn bits_facts() ensures
    (1u64 << 63) == 0x8000_0000_0000_0000, (1u64 << 53) == 0x20_0000_0000_0000, (1u64 << 52) == 0x10_0000_0000_0000, (2047u64 << 52) == 0x7ff0_0000_0000_0000,
    forall|a: u64| 0 | a == a,
{ assert((1u64 << 63) == 0x8000_0000_0000_0000 && (1u64 << 53) == 0x20_0000_0000_0000 && (1u64 << 52) == 0x10_0000_0000_0000 && (2047u64 << 52) == 0x7ff0_0000_0000_0000) by(bit_vector);
  assert forall|a: u64| 0 | a == a by { assert(0 | a == a) by(bit_vector); } }
// ---- doubles
pub assume_specification[ f64::from_bits ](b: u64) -> (r: f64) ensures fbits(r) == b;
//@ fn BigFloat::to_f64
  requires bf_ok(self), -0x3000_0000_0000_0000 <= self.exp <= 0x3000_0000_0000_0000,
    self.non_zero_reminder ==> sig(self) >= 2 * F52()
  ensures
    sig(self) == 0 ==> fbits(res) == sbit(self.sign),
    forall|n: int, d: int| sig(self) != 0 && #[trigger] is2(self, n, d) ==> nearest(n, d, fbits(res) - sbit(self.sign)),
