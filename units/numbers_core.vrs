//@ include big_float.vrs
//@ file nanvm-lib/src/tokenizer/mod.rs
//@ gsub pub enum JsonToken => #[verifier::reject_recursive_types(D)] pub enum JsonToken
//@ gsub pub struct IntState => #[verifier::reject_recursive_types(D)] pub struct IntState
//@ gsub pub struct FloatState => #[verifier::reject_recursive_types(D)] pub struct FloatState
//@ gsub pub struct ExpState => #[verifier::reject_recursive_types(D)] pub struct ExpState
//@ item enum JsonToken
//@ item enum ErrorType
//@ item struct IntState
//@ item struct FloatState
//@ item struct ExpState
//@ raw
pub open spec fn clamp63(e: int) -> int { if e > i64::MAX { i64::MAX as int } else if e < i64::MIN { i64::MIN as int } else { e } }
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64) ensures r == clamp63(a + b);
pub assume_specification [i64::saturating_mul] (a: i64, b: i64) -> (r: i64) ensures r == clamp63(a * b);
// an exponent counter that stops at the largest i64
pub open spec fn sat63(e: int) -> int { if e > i64::MAX { i64::MAX as int } else { e } }
pub open spec fn is_num<D: Dealloc>(t: JsonToken<D>, s: Sign, dg: int, e: int) -> bool { t is Number && is_dec(t->Number_0, s, dg, e) }
pub proof fn fval_mono1(b: int) requires 0 <= b < INFB() ensures fval(b) < fval(b + 1), fval(b + 1) <= fval(INFB()) decreases INFB() - b {
    let (g, f) = if b < F52() { (0int, b) } else { (b / F52() - 1, b % F52() + F52()) };
    assert(b == g * F52() + f) by { if b >= F52() { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, F52()); } }
    fval_next(g, f); p2_pos(g);
    let q = p2(g); assert((f + 1) * q > f * q) by(nonlinear_arith) requires q >= 1;
    fval_le(b + 1);
}
pub proof fn fval_le(b: int) requires 0 <= b <= INFB() ensures fval(b) <= fval(INFB())
{
    // every value below infinity is (f * 2^g) with f < 2^53 and g <= 2045
    fval_at(2045, 2 * F52());
    if b < INFB() {
        let (g, f) = if b < F52() { (0int, b) } else { (b / F52() - 1, b % F52() + F52()) };
        assert(b == g * F52() + f) by { if b >= F52() { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, F52()); } }
        fval_at(g, f); p2_pos(g); ipow_mono(2, g, 2045);
        let (q, r) = (p2(g), p2(2045));
        assert(f * q <= (2 * F52()) * r) by(nonlinear_arith) requires 0 <= f <= 2 * F52(), 1 <= q <= r;
    }
}
// far above the doubles only infinity is nearest, far below only zero
pub proof fn only_inf(n: int, d: int, b: int) requires d > 0, n * p2(1075) > 2 * fval(INFB()) * d ensures nearest(n, d, b) <==> b == INFB() {
    reveal(nearest);
    fval_le(INFB() - 1);
    let x = n * p2(1075); let top = fval(INFB());
    assert((fval(INFB() - 1) + top) * d <= 2 * top * d) by(nonlinear_arith) requires fval(INFB() - 1) <= top, d > 0;
    if 0 <= b < INFB() {
        fval_le(b); fval_le(b + 1);
        assert((fval(b) + fval(b + 1)) * d <= 2 * top * d) by(nonlinear_arith) requires fval(b) <= top, fval(b + 1) <= top, d > 0;
    }
}
pub proof fn fval_pos(b: int) requires b >= 0 ensures fval(b) >= 0, b > 0 ==> fval(b) >= 1 {
    if b >= F52() { p2_pos(b / F52() - 1); let q = p2(b / F52() - 1); let m = F52() + b % F52(); assert(m * q >= 1) by(nonlinear_arith) requires m >= 1, q >= 1; }
}
pub proof fn only_zero(n: int, d: int, b: int) requires d > 0, 0 <= n * p2(1075) < d ensures nearest(n, d, b) <==> b == 0 {
    reveal(nearest);
    assert((fval(0) + fval(1)) * d == d) by { assert(fval(0) + fval(1) == 1); assert(1 * d == d); }
    if 0 < b <= INFB() { fval_pos(b - 1); fval_pos(b); let t = fval(b - 1) + fval(b); assert(t * d >= d) by(nonlinear_arith) requires t >= 1, d > 0; }
}
pub proof fn huge_dec(dg: int, e: int, b: int) requires dg > 0, e >= 400 ensures nearest(dg * ipow(10, e), ipow(10, -e), b) <==> b == INFB() {
    assert(ipow(10, -e) == 1);
    ipow_mul(2, 5, e); ipow_sq(2, e); ipow_ge(5, 4, e); ipow_mono(2, 800, 2 * e); ipow_mono(2, 400, e);
    assert(2 * 2 == 4);
    fval_at(2045, 2 * F52());
    p2_pos(1075); ipow_add(2, 400, 800); ipow_add(2, 1200, 1075); ipow_mono(2, 2200, 2275); ipow_add(2, 2045, 55); ipow_mono(2, 2100, 2200);
    assert(p2(55) == 8 * F52()) by(compute_only);
    let (a, c, t, u) = (p2(e), ipow(5, e), p2(1075), p2(2045));
    let x = ipow(10, e);
    p2_pos(400); p2_pos(800); p2_pos(1200);
    assert(x >= p2(400) * p2(800)) by(nonlinear_arith) requires x == a * c, a >= p2(400), c >= p2(800), p2(400) >= 0, p2(800) >= 0;
    let m = p2(1200);
    assert((dg * x) * t >= m * t) by(nonlinear_arith) requires dg >= 1, x >= m, m >= 1, t >= 1;
    p2_pos(2045);
    assert(m * t > 2 * ((2 * F52()) * u)) by(nonlinear_arith) requires m * t >= u * (8 * F52()), u >= 1;
    only_inf(dg * x, 1, b);
}
pub proof fn ipow_ge(a: int, b: int, k: int) requires a >= b >= 1 ensures ipow(a, k) >= ipow(b, k) >= 1 decreases k {
    if k > 0 { ipow_ge(a, b, k - 1); let (x, y) = (ipow(a, k - 1), ipow(b, k - 1)); assert(a * x >= b * y && b * y >= 1) by(nonlinear_arith) requires a >= b, b >= 1, x >= y, y >= 1; }
}
pub proof fn tiny_dec(l: int, dg: int, e: int, b: int) requires 0 < dg < bp(l), l >= 0, e <= -400 - 20 * l ensures nearest(dg * ipow(10, e), ipow(10, -e), b) <==> b == 0 {
    assert(ipow(10, e) == 1);
    bp_p2(l); ten20(l);
    ipow_mono(10, 400 + 20 * l, -e); ipow_add(10, 400, 20 * l);
    ipow_mul(2, 5, 400); ipow_sq(2, 400); ipow_ge(5, 4, 400); ipow_add(2, 400, 800); ipow_mono(2, 1075, 1200);
    p2_pos(1075); p2_pos(400); p2_pos(800);
    let (t, x) = (p2(1075), ipow(10, 400));
    assert(x >= p2(400) * p2(800)) by(nonlinear_arith) requires x == p2(400) * ipow(5, 400), ipow(5, 400) >= p2(800), p2(400) >= 1;
    let y = ipow(10, 20 * l);
    assert(dg * t < x * y) by(nonlinear_arith) requires 0 < dg < y, 1 <= t <= x;
    assert(dg * 1 == dg); assert(dg * t >= 0) by(nonlinear_arith) requires dg > 0, t > 0;
    only_zero(dg, ipow(10, -e), b);
}
pub proof fn ten20(l: int) requires l >= 0 ensures p2(64 * l) <= ipow(10, 20 * l) decreases l {
    if l > 0 {
        ten20(l - 1); ipow_add(2, 64, 64 * (l - 1)); ipow_add(10, 20, 20 * (l - 1)); p2_64(); p2_pos(64 * (l - 1));
        assert(ipow(10, 20) >= BB()) by(compute_only);
        let (a, b, c, d) = (BB(), p2(64 * (l - 1)), ipow(10, 20), ipow(10, 20 * (l - 1)));
        assert(a * b <= c * d) by(nonlinear_arith) requires 1 <= a <= c, 1 <= b <= d;
    } else { assert(p2(0) == 1 && ipow(10, 0) == 1); }
}
// the decimal exponents beyond which the value does not depend on them
pub open spec fn same_exp(x: JsBigint, e: int, c: int) -> bool { e == c || (e >= 400 && c >= 400) || (e <= -400 - 20 * x.sitems().len() && c <= -400 - 20 * x.sitems().len()) }
pub proof fn same_dec(x: JsBigint, e: int, c: int, f: f64, s: Sign) requires wf(x), bi(x) >= 0, same_exp(x, e, c), is_dec(f, s, bi(x), c) ensures is_dec(f, s, bi(x), e) {
    reveal(is_decb); wf_sign(x); val_bound(x.sitems());
    if bi(x) > 0 && e != c {
        let b = fbits(f) - sbit(s);
        if e >= 400 { huge_dec(bi(x), e, b); huge_dec(bi(x), c, b); }
        else { tiny_dec(x.sitems().len() as int, bi(x), e, b); tiny_dec(x.sitems().len() as int, bi(x), c, b); }
    }
}
pub proof fn dec_res(x: JsBigint, s: Sign, f: f64, e: int, c: int)
    requires wf(x), bi(x) >= 0, same_exp(x, e, c), bi(x) == 0 ==> fbits(f) == sbit(s), bi(x) != 0 ==> nearest(bi(x) * ipow(10, c), ipow(10, -c), fbits(f) - sbit(s))
    ensures is_dec(f, s, bi(x), e)
{ reveal(is_decb); same_dec(x, e, c, f, s); }
//@ gsub impl<D: Dealloc> JsBigintMutRef<D> => impl<D: Dealloc> MutRef<JsBigint, D>
//@ gsub JsBigintMutRef::from_digit => MutRef::<JsBigint, M::Dealloc>::from_digit
//@ fn bigfloat_to_f64
  requires bf_ok(bf_10), !bf_10.non_zero_reminder
  ensures forall|x: JsBigint, e: int, c: int| #[trigger] same_exp(x, e, c) && x == bf_10.significand.res() && c == bf_10.exp ==> is_dec(res, bf_10.sign, sig(bf_10), e)
//@ start
  let ghost b0 = bf_10;
  proof { axiom_bigint_len(&bf_10.significand.res()); }
//@ tail
  proof { assert(p2(54) == 4 * F52()) by(compute_only); }
//@ tailres
  proof {
    let c = bf_10.exp as int; let x = b0.significand.res();
    assert forall|e: int| #[trigger] same_exp(x, e, b0.exp as int) implies is_dec(vres, b0.sign, sig(b0), e) by { dec_res(x, b0.sign, vres, e, c); }
  }
//@ item const CP_0
//@ fn digit_to_number
  requires '0' <= c <= '9'
  ensures res == c as int - 48
//@ fn JsBigintMutRef::from_digit
  requires '0' <= c <= '9'
  ensures wf(res.res()), bi(res.res()) == c as int - 48
//@ fn JsBigintMutRef::add_digit
  requires '0' <= c <= '9', wf(self.res()), bi(self.res()) >= 0
  ensures wf(res.res()), bi(res.res()) == bi(self.res()) * 10 + (c as int - 48)
//@ fn IntState::into_float_state
  ensures res.b == self.b, res.s == self.s, res.fe == 0
//@ fn IntState::into_exp_state
  ensures res.b == self.b, res.s == self.s, res.fe == 0, res.es is Positive, res.e == 0
//@ fn IntState::into_bigint_state
  requires wf(self.b.res()), bi(self.b.res()) >= 0
  ensures wf(res.res()), bi(res.res()) == sg(self.s, bi(self.b.res()))
//@ fn int_state_into_number_token
  requires wf(state.b.res()), bi(state.b.res()) >= 0
  ensures is_num(res, state.s, bi(state.b.res()), 0)
//@ tailres
  proof { assert(same_exp(state.b.res(), 0, 0)); }
//@ fn FloatState::add_digit
  requires '0' <= c <= '9', wf(self.b.res()), bi(self.b.res()) >= 0, self.fe > i64::MIN
  ensures wf(res.b.res()), bi(res.b.res()) == bi(self.b.res()) * 10 + (c as int - 48), res.fe == self.fe - 1, res.s == self.s
//@ fn FloatState::into_exp_state
  ensures res.b == self.b, res.s == self.s, res.fe == self.fe, res.es is Positive, res.e == 0
//@ fn float_state_into_token
  requires wf(state.b.res()), bi(state.b.res()) >= 0
  ensures is_num(res, state.s, bi(state.b.res()), state.fe as int)
//@ tailres
  proof { assert(same_exp(state.b.res(), state.fe as int, state.fe as int)); }
//@ fn ExpState::add_digit
  requires '0' <= c <= '9', 0 <= self.e
  ensures forall|e: int| self.e == sat63(e) && e >= 0 ==> res.e == #[trigger] sat63(e * 10 + (c as int - 48)), res.b == self.b, res.s == self.s, res.fe == self.fe, res.es == self.es
//@ fn exp_state_into_token
  requires wf(state.b.res()), bi(state.b.res()) >= 0, 0 <= state.e, -0x1000_0000_0000_0000 <= state.fe <= 0
  ensures forall|e: int| state.e == #[trigger] sat63(e) ==> is_num(res, state.s, bi(state.b.res()), state.fe + sg(state.es, e))
//@ tailres
  proof {
    axiom_bigint_len(&state.b.res());
    assert forall|e: int| state.e == #[trigger] sat63(e) implies is_num(vres, state.s, bi(state.b.res()), state.fe + sg(state.es, e)) by { assert(same_exp(state.b.res(), state.fe + sg(state.es, e), exp as int)); }
  }
//@ fn zero_to_number_token
  ensures is_num(res, s, 0, 0), forall|e: int| #[trigger] is_num(res, s, 0, e)
//@ start
  proof { reveal(is_decb); }
//@ fn start_number
  requires '0' <= c <= '9'
  ensures wf(res.b.res()), bi(res.b.res()) == c as int - 48, res.s == s
