// ---------------------------------------------------------------------------------------------
// Limb sequences (little endian, base 2^64) and their value.
// ---------------------------------------------------------------------------------------------
pub open spec fn BB() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn PM() -> int { 0xffff_ffff_ffff_fffe_0000_0000_0000_0001 }   // (B-1)^2
pub open spec fn bp(n: int) -> int decreases n { if n <= 0 { 1 } else { BB() * bp(n - 1) } }
pub open spec fn limb(s: Seq<u64>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
// value of the first k limbs (zero extended)
pub open spec fn vpre(s: Seq<u64>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { vpre(s, k - 1) + limb(s, k - 1) * bp(k - 1) }
}
pub open spec fn val(s: Seq<u64>) -> int { vpre(s, s.len() as int) }
pub open spec fn norm(s: Seq<u64>) -> bool { s.len() == 0 || s[s.len() - 1] != 0 }

pub proof fn bp_pos(n: int) ensures bp(n) >= 1 decreases n {
    if n > 0 { bp_pos(n - 1); assert(BB() * bp(n - 1) >= 1) by(nonlinear_arith) requires bp(n - 1) >= 1; }
}
pub proof fn bp_add(a: int, b: int) requires a >= 0, b >= 0 ensures bp(a + b) == bp(a) * bp(b) decreases a {
    if a > 0 {
        bp_add(a - 1, b);
        assert(BB() * (bp(a - 1) * bp(b)) == (BB() * bp(a - 1)) * bp(b)) by(nonlinear_arith);
    } else {
        assert(bp(0) * bp(b) == bp(b)) by { assert(bp(0) == 1); }
    }
}
pub proof fn bp_mono(a: int, b: int) requires a <= b ensures bp(a) <= bp(b) decreases b - a {
    if a < b {
        bp_mono(a, b - 1);
        bp_pos(b - 1);
        if b > 0 { assert(BB() * bp(b - 1) >= bp(b - 1)) by(nonlinear_arith) requires bp(b - 1) >= 1; }
    }
}
pub proof fn vpre_bound(s: Seq<u64>, k: int) ensures 0 <= vpre(s, k) < bp(k) || (k <= 0 && vpre(s, k) == 0), 0 <= vpre(s, k), k >= 0 ==> vpre(s, k) < bp(k) decreases k {
    if k > 0 {
        vpre_bound(s, k - 1);
        bp_pos(k - 1);
        let l = limb(s, k - 1);
        assert(0 <= l * bp(k - 1) && l * bp(k - 1) + bp(k - 1) <= BB() * bp(k - 1)) by(nonlinear_arith)
            requires 0 <= l <= BB() - 1, bp(k - 1) >= 1;
    }
}
pub proof fn vpre_same(s: Seq<u64>, t: Seq<u64>, k: int)
    requires forall|i: int| 0 <= i < k ==> limb(s, i) == limb(t, i)
    ensures vpre(s, k) == vpre(t, k)
    decreases k
{ if k > 0 { vpre_same(s, t, k - 1); } }
pub proof fn vpre_ext(s: Seq<u64>, k: int) requires k >= s.len() ensures vpre(s, k) == val(s) decreases k {
    if k > s.len() { vpre_ext(s, k - 1); assert(limb(s, k - 1) * bp(k - 1) == 0) by { assert(limb(s, k - 1) == 0); } }
}
pub proof fn val_push(s: Seq<u64>, x: u64) ensures val(s.push(x)) == val(s) + x * bp(s.len() as int) {
    let t = s.push(x);
    assert forall|i: int| 0 <= i < s.len() implies limb(s, i) == limb(t, i) by {}
    vpre_same(s, t, s.len() as int);
    assert(limb(t, s.len() as int) == x);
}
pub proof fn val_pop0(s: Seq<u64>) requires s.len() > 0, s[s.len() - 1] == 0 ensures val(s.drop_last()) == val(s) {
    val_push(s.drop_last(), 0);
    assert(s.drop_last().push(0) =~= s);
    assert(0 * bp(s.len() - 1) == 0);
}
pub proof fn val_bound(s: Seq<u64>) ensures 0 <= val(s) < bp(s.len() as int) { vpre_bound(s, s.len() as int); }
pub proof fn val_norm_lo(s: Seq<u64>) requires norm(s), s.len() > 0 ensures val(s) >= bp(s.len() - 1), val(s) > 0 {
    let n = s.len() as int;
    vpre_bound(s, n - 1);
    bp_pos(n - 1);
    assert(limb(s, n - 1) * bp(n - 1) >= bp(n - 1)) by(nonlinear_arith) requires limb(s, n - 1) >= 1, bp(n - 1) >= 1;
}
pub proof fn val_zero(s: Seq<u64>) requires norm(s) ensures (val(s) == 0) == (s.len() == 0) { if s.len() > 0 { val_norm_lo(s); } }
// if the value has at least the weight of the top limb, the top limb is not zero
pub proof fn norm_from_val(s: Seq<u64>) requires s.len() == 0 || val(s) >= bp(s.len() - 1) ensures norm(s) {
    if s.len() > 0 && s[s.len() - 1] == 0 { val_pop0(s); val_bound(s.drop_last()); }
}
pub proof fn val_len_lt(s: Seq<u64>, t: Seq<u64>) requires norm(t), s.len() < t.len() ensures val(s) < val(t) {
    val_bound(s); val_norm_lo(t); bp_mono(s.len() as int, t.len() - 1);
}
// the canonical limbs of a value are unique
pub proof fn val_inj(s: Seq<u64>, t: Seq<u64>) requires norm(s), norm(t), val(s) == val(t) ensures s == t {
    if s.len() < t.len() { val_len_lt(s, t); } else if t.len() < s.len() { val_len_lt(t, s); } else {
        vpre_inj(s, t, s.len() as int);
        assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(limb(s, i) == limb(t, i)); }
        assert(s =~= t);
    }
}
pub proof fn vpre_inj(s: Seq<u64>, t: Seq<u64>, k: int)
    requires vpre(s, k) == vpre(t, k)
    ensures forall|i: int| 0 <= i < k ==> limb(s, i) == limb(t, i)
    decreases k
{
    if k > 0 {
        vpre_bound(s, k - 1); vpre_bound(t, k - 1);
        let (a, b, x, y, p) = (limb(s, k - 1), limb(t, k - 1), vpre(s, k - 1), vpre(t, k - 1), bp(k - 1));
        assert(a == b) by(nonlinear_arith) requires x + a * p == y + b * p, 0 <= x < p, 0 <= y < p;
        vpre_inj(s, t, k - 1);
    }
}
// comparing from the top limb down
pub proof fn vpre_top_lt(s: Seq<u64>, t: Seq<u64>, k: int, n: int)
    requires 0 <= k < n, forall|i: int| k < i < n ==> limb(s, i) == limb(t, i), limb(s, k) < limb(t, k)
    ensures vpre(s, n) < vpre(t, n)
    decreases n
{
    if n == k + 1 {
        vpre_bound(s, k); vpre_bound(t, k);
        let (a, b, p) = (limb(s, k), limb(t, k), bp(k));
        assert(a * p + p <= b * p) by(nonlinear_arith) requires a + 1 <= b, p >= 0;
    } else {
        vpre_top_lt(s, t, k, n - 1);
    }
}
pub proof fn val_single(x: u64) ensures val(seq![x]) == x {
    let s = seq![x];
    assert(vpre(s, 1) == vpre(s, 0) + limb(s, 0) * bp(0));
}
pub proof fn vpre_parity(s: Seq<u64>, k: int) requires k >= 1 ensures vpre(s, k) % 2 == limb(s, 0) % 2 decreases k {
    if k > 1 {
        vpre_parity(s, k - 1);
        let (l, p) = (limb(s, k - 1), bp(k - 2));
        assert((l * (BB() * p)) % 2 == 0) by {
            assert(l * (BB() * p) == 2 * (0x8000_0000_0000_0000 * (l * p))) by(nonlinear_arith);
        }
    } else { assert(bp(0) == 1); assert(vpre(s, 0) == 0); }
}
pub proof fn val_parity(s: Seq<u64>) requires s.len() > 0 ensures val(s) % 2 == (s[0] as int) % 2 { vpre_parity(s, s.len() as int); }
// no Vec or slice of u64 spans more than 2^56 bytes (real address spaces are smaller)
pub open spec fn MAXLIMBS() -> int { 0x0020_0000_0000_0000 }
#[verifier::external_body]
pub broadcast proof fn axiom_vec_len(v: Vec<u64>) ensures #[trigger] v@.len() <= MAXLIMBS() {}
#[verifier::external_body]
pub broadcast proof fn axiom_slice_len(v: &[u64]) ensures #[trigger] v@.len() <= MAXLIMBS() {}

pub proof fn lemma_split128(x: u128)
    ensures x as int == (x as u64) as int + BB() * (x >> 64) as int, (x as u64) as int == x as int % BB(), (x >> 64) as int == x as int / BB(), (x >> 64) < BB()
{
    assert(x == vstd::prelude::add((x as u64) as u128, vstd::prelude::mul(0x1_0000_0000_0000_0000u128, x >> 64))) by(bit_vector);
    assert(x >> 64 <= 0xffff_ffff_ffff_ffffu128) by(bit_vector);
    let (a, b) = ((x as u64) as int, (x >> 64) as int);
    assert(0 <= a < BB() && 0 <= b < BB());
    assert(a + BB() * b < BB() * BB()) by(nonlinear_arith) requires 0 <= a < BB(), 0 <= b < BB();
}
pub proof fn lemma_split_i128(x: i128)
    requires -BB() <= x < BB()
    ensures x as int == (x as u64) as int - BB() * (x >> 64 & 1) as int, 0 <= (x >> 64 & 1) <= 1
{
    if x >= 0 {
        assert(x as u64 == x) by(bit_vector) requires 0i128 <= x < 0x1_0000_0000_0000_0000i128;
        assert(x >> 64 & 1 == 0) by(bit_vector) requires 0i128 <= x < 0x1_0000_0000_0000_0000i128;
    } else {
        assert(x as u64 == x + 0x1_0000_0000_0000_0000i128) by(bit_vector) requires -0x1_0000_0000_0000_0000i128 <= x < 0i128;
        assert(x >> 64 & 1 == 1) by(bit_vector) requires -0x1_0000_0000_0000_0000i128 <= x < 0i128;
    }
}
pub proof fn add_step(v: int, c: int, p: int, a: int, b: int, x: int, y: int, d: int, c1: int)
    requires v + c * p == a + b, d + BB() * c1 == x + y + c
    ensures (v + d * p) + c1 * (BB() * p) == (a + x * p) + (b + y * p)
{ assert((v + d * p) + c1 * (BB() * p) == (a + x * p) + (b + y * p)) by(nonlinear_arith) requires v + c * p == a + b, d + BB() * c1 == x + y + c; }
pub proof fn sub_step(v: int, c: int, p: int, a: int, b: int, x: int, y: int, d: int, c1: int)
    requires v - c * p == a - b, d - BB() * c1 == x - y - c
    ensures (v + d * p) - c1 * (BB() * p) == (a + x * p) - (b + y * p)
{ assert((v + d * p) - c1 * (BB() * p) == (a + x * p) - (b + y * p)) by(nonlinear_arith) requires v - c * p == a - b, d - BB() * c1 == x - y - c; }

// ---- multiplication -------------------------------------------------------------------------
pub open spec fn dsum(l: Seq<u64>, r: Seq<u64>, t: int, n: int) -> int decreases t {
    if t <= 0 { 0 } else { dsum(l, r, t - 1, n) + limb(l, t - 1) * limb(r, n - (t - 1)) }
}
pub open spec fn conv(l: Seq<u64>, r: Seq<u64>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { conv(l, r, n - 1) + dsum(l, r, n, n - 1) * bp(n - 1) }
}
pub open spec fn gsum(l: Seq<u64>, r: Seq<u64>, t: int, n: int) -> int decreases t {
    if t <= 0 { 0 } else { gsum(l, r, t - 1, n) + (limb(l, t - 1) * bp(t - 1)) * vpre(r, n - (t - 1)) }
}
pub proof fn g_step(l: Seq<u64>, r: Seq<u64>, t: int, n: int)
    requires 0 <= t <= n + 1
    ensures gsum(l, r, t, n + 1) == gsum(l, r, t, n) + bp(n) * dsum(l, r, t, n)
    decreases t
{
    if t > 0 {
        g_step(l, r, t - 1, n);
        let u = t - 1;
        bp_add(u, n - u);
        let (a, b, c, d, e) = (limb(l, u), bp(u), vpre(r, n - u), limb(r, n - u), bp(n - u));
        assert(vpre(r, n + 1 - u) == c + d * e);
        assert((a * b) * (c + d * e) == (a * b) * c + (b * e) * (a * d)) by(nonlinear_arith);
        let (x, y) = (dsum(l, r, u, n), a * d);
        assert(bp(n) * (x + y) == bp(n) * x + bp(n) * y) by(nonlinear_arith);
    } else { assert(bp(n) * 0 == 0); }
}
pub proof fn conv_g(l: Seq<u64>, r: Seq<u64>, n: int) requires n >= 0 ensures conv(l, r, n) == gsum(l, r, n, n) decreases n {
    if n > 0 {
        conv_g(l, r, n - 1);
        g_step(l, r, n, n - 1);
        assert(vpre(r, 0) == 0);
        assert((limb(l, n - 1) * bp(n - 1)) * vpre(r, 0) == 0) by(nonlinear_arith) requires vpre(r, 0) == 0;
        assert(gsum(l, r, n, n - 1) == gsum(l, r, n - 1, n - 1));
        assert(bp(n - 1) * dsum(l, r, n, n - 1) == dsum(l, r, n, n - 1) * bp(n - 1)) by(nonlinear_arith);
    }
}
pub proof fn g_tail(l: Seq<u64>, r: Seq<u64>, t: int, n: int) requires t >= l.len() ensures gsum(l, r, t, n) == gsum(l, r, l.len() as int, n) decreases t {
    if t > l.len() {
        g_tail(l, r, t - 1, n);
        assert(limb(l, t - 1) == 0);
        assert((limb(l, t - 1) * bp(t - 1)) * vpre(r, n - (t - 1)) == 0) by(nonlinear_arith) requires limb(l, t - 1) == 0;
    }
}
pub proof fn g_full(l: Seq<u64>, r: Seq<u64>, t: int, n: int) requires 0 <= t, n - t + 1 >= r.len() ensures gsum(l, r, t, n) == vpre(l, t) * val(r) decreases t {
    if t > 0 {
        g_full(l, r, t - 1, n);
        vpre_ext(r, n - (t - 1));
        let (a, b, c) = (vpre(l, t - 1), limb(l, t - 1) * bp(t - 1), val(r));
        assert((a + b) * c == a * c + b * c) by(nonlinear_arith);
    } else { assert(0 * val(r) == 0); }
}
pub proof fn conv_total(l: Seq<u64>, r: Seq<u64>)
    requires l.len() > 0, r.len() > 0
    ensures conv(l, r, l.len() + r.len() - 1) == val(l) * val(r), val(l) * val(r) < bp((l.len() + r.len()) as int)
{
    let n = l.len() + r.len() - 1;
    conv_g(l, r, n); g_tail(l, r, n, n); g_full(l, r, l.len() as int, n);
    val_bound(l); val_bound(r); bp_add(l.len() as int, r.len() as int);
    let (a, b, c, d) = (val(l), val(r), bp(l.len() as int), bp(r.len() as int));
    assert(a * b < c * d) by(nonlinear_arith) requires 0 <= a < c, 0 <= b < d;
}
pub proof fn dsum_mono(l: Seq<u64>, r: Seq<u64>, t: int, u: int, n: int) requires t <= u ensures 0 <= dsum(l, r, t, n) <= dsum(l, r, u, n) decreases u {
    if u > 0 {
        assert(limb(l, u - 1) * limb(r, n - (u - 1)) >= 0) by(nonlinear_arith) requires limb(l, u - 1) >= 0, limb(r, n - (u - 1)) >= 0;
        if t < u { dsum_mono(l, r, t, u - 1, n); } else { dsum_mono(l, r, u - 1, u - 1, n); }
    }
}
pub proof fn conv_mono(l: Seq<u64>, r: Seq<u64>, m: int, n: int) requires m <= n ensures conv(l, r, m) <= conv(l, r, n) decreases n - m {
    if m < n && n > 0 {
        conv_mono(l, r, m, n - 1);
        dsum_mono(l, r, 0, n, n - 1); bp_pos(n - 1);
        assert(dsum(l, r, n, n - 1) * bp(n - 1) >= 0) by(nonlinear_arith) requires dsum(l, r, n, n - 1) >= 0, bp(n - 1) >= 1;
    }
}
pub proof fn dsum_zero_lo(l: Seq<u64>, r: Seq<u64>, t: int, n: int) requires t <= 0 || n - t >= r.len() - 1 ensures dsum(l, r, t, n) == 0 decreases t {
    if t > 0 { dsum_zero_lo(l, r, t - 1, n); assert(limb(r, n - (t - 1)) == 0); assert(limb(l, t - 1) * 0 == 0); }
}
pub proof fn dsum_zero_hi(l: Seq<u64>, r: Seq<u64>, t: int, n: int) requires t >= l.len() ensures dsum(l, r, t, n) == dsum(l, r, l.len() as int, n) decreases t {
    if t > l.len() { dsum_zero_hi(l, r, t - 1, n); assert(limb(l, t - 1) == 0); assert(0 * limb(r, n - (t - 1)) == 0); }
}
// one product step leaves room: the partial sums never exceed the full product
pub proof fn mul_room(l: Seq<u64>, r: Seq<u64>, i: int, j: int)
    requires l.len() > 0, r.len() > 0, 0 <= i < l.len() + r.len() - 1, 0 <= j <= i, j < l.len()
    ensures
        conv(l, r, i) + dsum(l, r, j, i) * bp(i) + (limb(l, j) * limb(r, i - j)) * bp(i) == conv(l, r, i) + dsum(l, r, j + 1, i) * bp(i),
        conv(l, r, i) + dsum(l, r, j + 1, i) * bp(i) < bp((l.len() + r.len()) as int),
        0 <= limb(l, j) * limb(r, i - j) <= PM(),
{
    conv_total(l, r); conv_mono(l, r, i + 1, l.len() + r.len() - 1);
    dsum_mono(l, r, j + 1, i + 1, i); bp_pos(i);
    let (a, b, p) = (dsum(l, r, j + 1, i), dsum(l, r, i + 1, i), bp(i));
    assert(a * p <= b * p) by(nonlinear_arith) requires a <= b, p >= 1;
    let (x, y) = (dsum(l, r, j, i), limb(l, j) * limb(r, i - j));
    assert((x + y) * p == x * p + y * p) by(nonlinear_arith);
    let (u, v) = (limb(l, j), limb(r, i - j));
    assert(0 <= u * v <= PM()) by(nonlinear_arith) requires 0 <= u <= BB() - 1, 0 <= v <= BB() - 1;
}
pub proof fn vpre_update(s: Seq<u64>, i: int, x: u64, k: int) requires 0 <= i < s.len(), 0 <= k
    ensures vpre(s.update(i, x), k) == vpre(s, k) + (if i < k { (x - s[i]) * bp(i) } else { 0 })
    decreases k
{
    let t = s.update(i, x);
    if k > 0 {
        vpre_update(s, i, x, k - 1);
        if k - 1 == i {
            assert((x - s[i]) * bp(i) == x * bp(i) - s[i] * bp(i)) by(nonlinear_arith);
        } else { assert(limb(t, k - 1) == limb(s, k - 1)); }
    }
}
pub proof fn val_update(s: Seq<u64>, i: int, x: u64) requires 0 <= i < s.len() ensures val(s.update(i, x)) == val(s) + (x - s[i]) * bp(i) { vpre_update(s, i, x, s.len() as int); }
pub proof fn val_zeros(s: Seq<u64>, k: int) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0 ensures vpre(s, k) == 0 decreases k
{ if k > 0 { val_zeros(s, k - 1); assert(limb(s, k - 1) == 0); assert(0 * bp(k - 1) == 0); } }
// zeros below, x on top
pub proof fn val_unit(s: Seq<u64>, x: u64) requires s.len() > 0, forall|i: int| 0 <= i < s.len() - 1 ==> s[i] == 0, s[s.len() - 1] == x ensures val(s) == x * bp(s.len() - 1) {
    let z = s.update(s.len() - 1, 0);
    val_zeros(z, z.len() as int);
    val_update(z, s.len() - 1, x);
    assert(z.update(s.len() - 1, x) =~= s);
    assert((x - 0) * bp(s.len() - 1) == x * bp(s.len() - 1));
}
// ---- division ---------------------------------------------------------------------------------
pub proof fn len_le(s: Seq<u64>, t: Seq<u64>) requires norm(s), norm(t), val(s) <= val(t) ensures s.len() <= t.len() { if t.len() < s.len() { val_len_lt(t, s); } }
// a's top `w` limbs (value h) and an under-estimated quotient digit d of h / (top(b)+1): d * B^k * b <= a
pub proof fn est(a: Seq<u64>, b: Seq<u64>, h: int, na: int, d: int, k: int)
    requires b.len() > 0, k >= 0, na == k + b.len() - 1, h * bp(na) <= val(a), d >= 0, d * (b[b.len() - 1] + 1) <= h
    ensures (d * bp(k)) * val(b) <= val(a)
{
    let nb = b.len() - 1;
    vpre_bound(b, nb);
    bp_add(k, nb);
    bp_pos(k); bp_pos(nb); bp_pos(na);
    let (bh, x, p, q, v) = (b[nb] as int, vpre(b, nb), bp(k), bp(nb), val(b));
    assert(v < (bh + 1) * q) by(nonlinear_arith) requires v == x + bh * q, x < q;
    assert((d * p) * v <= (d * p) * ((bh + 1) * q)) by(nonlinear_arith) requires d >= 0, p >= 1, v <= (bh + 1) * q;
    assert((d * p) * ((bh + 1) * q) == (d * (bh + 1)) * (p * q)) by(nonlinear_arith);
    let e = d * (bh + 1);
    assert(e * bp(na) <= h * bp(na)) by(nonlinear_arith) requires e <= h, bp(na) >= 1;
}
pub proof fn top1(a: Seq<u64>) requires a.len() > 0 ensures a[a.len() - 1] * bp(a.len() - 1) <= val(a) { vpre_bound(a, a.len() - 1); }
pub proof fn top2(a: Seq<u64>) requires a.len() > 1 ensures (a[a.len() - 1] * BB() + a[a.len() - 2]) * bp(a.len() - 2) <= val(a) {
    let n = a.len() - 2;
    vpre_bound(a, n);
    let (x, y, p) = (a[n + 1] as int, a[n] as int, bp(n));
    assert(bp(n + 1) == BB() * p);
    assert(val(a) == vpre(a, n) + y * p + x * (BB() * p)) by { assert(vpre(a, n + 1) == vpre(a, n) + limb(a, n) * bp(n)); }
    assert((x * BB() + y) * p == y * p + x * (BB() * p)) by(nonlinear_arith);
}
pub proof fn euclid(n: int, d: int, q: int, r: int) requires n == q * d + r, 0 <= r < d ensures q == n / d, r == n % d {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, d, q, r);
}
pub proof fn shl64(x: u64) ensures ((x as u128) << 64) as int == x * BB() {
    assert(((x as u128) << 64) == vstd::prelude::mul(x as u128, 0x1_0000_0000_0000_0000u128)) by(bit_vector);
    assert(x * BB() < BB() * BB()) by(nonlinear_arith) requires x < BB();
}
pub broadcast proof fn val_len1(s: Seq<u64>) requires s.len() == 1 ensures #[trigger] val(s) == s[0] { assert(vpre(s, 1) == vpre(s, 0) + limb(s, 0) * bp(0)); }

// ---- powers ----
//@ include pow_spec.vrs
//@ raw
pub proof fn ipow_step(b: int, e: int) requires e >= 0 ensures ipow(b, e + 1) == b * ipow(b, e) {}
pub proof fn ipow_add(b: int, x: int, y: int) requires x >= 0, y >= 0 ensures ipow(b, x + y) == ipow(b, x) * ipow(b, y) decreases x {
    if x > 0 { ipow_add(b, x - 1, y); let (p, q) = (ipow(b, x - 1), ipow(b, y)); assert(b * (p * q) == (b * p) * q) by(nonlinear_arith); }
    else { assert(1 * ipow(b, y) == ipow(b, y)); }
}
pub proof fn ipow_sq(b: int, k: int) requires k >= 0 ensures ipow(b * b, k) == ipow(b, 2 * k) decreases k {
    if k > 0 { ipow_sq(b, k - 1); ipow_step(b, 2 * k - 1); ipow_step(b, 2 * k - 2); let p = ipow(b, 2 * k - 2); assert((b * b) * p == b * (b * p)) by(nonlinear_arith); }
}
pub proof fn ipow_pos(b: int, k: int) requires b >= 1 ensures ipow(b, k) >= 1 decreases k {
    if k > 0 { ipow_pos(b, k - 1); let p = ipow(b, k - 1); assert(b * p >= 1) by(nonlinear_arith) requires b >= 1, p >= 1; }
}
pub proof fn ipow_neg(b: int, k: int) requires k >= 0 ensures ipow(-b, k) == (if k % 2 == 0 { ipow(b, k) } else { -ipow(b, k) }) decreases k {
    if k > 0 { ipow_neg(b, k - 1); let p = ipow(b, k - 1); assert((-b) * p == -(b * p) && (-b) * (-p) == b * p) by(nonlinear_arith); }
}
pub proof fn ipow_one(k: int) ensures ipow(1, k) == 1 decreases k { if k > 0 { ipow_one(k - 1); } }
pub proof fn ipow_zero(k: int) requires k > 0 ensures ipow(0, k) == 0 {}
pub proof fn ipow_mono(b: int, x: int, y: int) requires b >= 1, x <= y ensures ipow(b, x) <= ipow(b, y) decreases y - x {
    if x < y { ipow_mono(b, x, y - 1); ipow_pos(b, y - 1); let p = ipow(b, y - 1); if y > 0 { assert(b * p >= p) by(nonlinear_arith) requires b >= 1, p >= 1; } }
}
pub proof fn bp_p2(n: int) requires n >= 0 ensures bp(n) == p2(64 * n) decreases n {
    if n > 0 { bp_p2(n - 1); ipow_add(2, 64, 64 * (n - 1)); p2_64(); }
}
pub proof fn p2_64() ensures p2(64) == BB(), p2(0) == 1, p2(32) == 0x1_0000_0000 {
    assert(ipow(2, 64) == 0x1_0000_0000_0000_0000) by(compute);
    assert(ipow(2, 32) == 0x1_0000_0000) by(compute);
}
pub proof fn p2_pos(n: int) ensures p2(n) >= 1 { ipow_pos(2, n); }
// ---- splitting at a limb ----
pub proof fn val_skip(s: Seq<u64>, k: int) requires 0 <= k <= s.len()
    ensures val(s) == vpre(s, k) + bp(k) * val(s.skip(k)), 0 <= vpre(s, k) < bp(k)
    decreases s.len()
{
    vpre_bound(s, k);
    if s.len() == k { assert(s.skip(k) =~= Seq::<u64>::empty()); assert(val(s.skip(k)) == 0); assert(bp(k) * 0 == 0); }
    else {
        let t = s.drop_last(); let x = s[s.len() - 1];
        val_skip(t, k);
        assert(s =~= t.push(x)); val_push(t, x);
        assert(s.skip(k) =~= t.skip(k).push(x)); val_push(t.skip(k), x);
        vpre_same(s, t, k);
        bp_add(k, t.len() - k);
        let (a, b, v) = (bp(k), bp(t.len() - k), val(t.skip(k)));
        assert(a * (v + x * b) == a * v + x * (a * b)) by(nonlinear_arith);
    }
}
pub proof fn val_prepend_zeros(z: Seq<u64>, s: Seq<u64>) requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures val(z + s) == bp(z.len() as int) * val(s) {
    let t = z + s;
    val_skip(t, z.len() as int);
    assert(t.skip(z.len() as int) =~= s);
    vpre_same(t, z, z.len() as int);
    val_zeros(z, z.len() as int);
}
// floor division facts
pub proof fn floor_div(n: int, d: int, q: int, r: int) requires n == q * d + r, 0 <= r < d ensures q == n / d, r == n % d {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, d, q, r);
}
pub proof fn div_div(n: int, a: int, b: int) requires a > 0, b > 0 ensures a * b > 0, (n / a) / b == n / (a * b) {
    assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0;
    let (q, r) = (n / a, n % a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, a);
    let (q2, r2) = (q / b, q % b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, b);
    assert(n == q2 * (a * b) + (a * r2 + r)) by(nonlinear_arith) requires n == a * q + r, q == b * q2 + r2;
    assert(0 <= a * r2 + r < a * b) by(nonlinear_arith) requires 0 <= r < a, 0 <= r2 < b, a > 0;
    floor_div(n, a * b, q2, a * r2 + r);
}
// floor(-x / d) = -((x - 1) / d + 1)
pub proof fn neg_floor(x: int, d: int) requires x > 0, d > 0 ensures (-x) / d == -((x - 1) / d + 1) {
    let (q, r) = ((x - 1) / d, (x - 1) % d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x - 1, d);
    assert(-x == (-(q + 1)) * d + (d - 1 - r)) by(nonlinear_arith) requires x - 1 == d * q + r;
    floor_div(-x, d, -(q + 1), d - 1 - r);
}
// ---- shifting limbs ----
pub open spec fn msk(s: u64) -> u64 { ((1u64 << s) - 1) as u64 }
pub proof fn p2_shl(s: u64) requires s < 64 ensures (1u64 << s) == p2(s as int), (1u64 << s) >= 1 decreases s {
    if s == 0 { assert(1u64 << 0 == 1) by(bit_vector); }
    else { let t = (s - 1) as u64; p2_shl(t); ipow_step(2, t as int); assert(1u64 << s == 2 * (1u64 << ((s - 1) as u64)) && (1u64 << s) >= 1) by(bit_vector) requires 0 < s < 64; }
}
pub proof fn shl128(x: u64, s: u64) requires s < 64
    ensures ((x as u128) << s) == x * p2(s as int), (x as u128) << s == BB() * (((x as u128) << s) >> 64) + (((x as u128) << s) & 0xffff_ffff_ffff_ffff),
      (((x as u128) << s) >> 64) < p2(s as int)
    decreases s
{
    shl128_aux(x, s); p2_shl(s);
    let y = (x as u128) << s;
    assert(y == 0x1_0000_0000_0000_0000 * (y >> 64) + (y & 0xffff_ffff_ffff_ffff)) by(bit_vector);
    assert((((x as u128) << s) >> 64) < (1u64 << s)) by(bit_vector) requires s < 64;
}
pub proof fn shl128_aux(x: u64, s: u64) requires s < 64 ensures ((x as u128) << s) == x * p2(s as int), ((x as u128) << s) <= x * p2(s as int) decreases s {
    if s == 0 { assert((x as u128) << 0 == x) by(bit_vector); }
    else {
        let t = (s - 1) as u64; shl128_aux(x, t); ipow_step(2, t as int);
        let p = p2(t as int);
        assert((x as u128) << s == 2 * ((x as u128) << ((s - 1) as u64))) by(bit_vector) requires 0 < s < 64;
        assert(2 * (x * p) == x * (2 * p)) by(nonlinear_arith);
    }
}
pub proof fn shl_bits(x: u64, a: u64, s: u64) requires 0 < s < 64, a & msk(s) == 0
    ensures ({ let y = (x as u128) << s; let h = (y >> 64) as u64; let l = y as u64;
       &&& (a | h) == a + h &&& l & msk(s) == 0 &&& l == y & 0xffff_ffff_ffff_ffff &&& h == y >> 64 })
{
    p2_shl(s);
    let m = msk(s);
    assert(m == vstd::prelude::sub(1u64 << s, 1));
    assert({ let y = (x as u128) << s; let h = (y >> 64) as u64; let l = y as u64;
       &&& (a | h) >= a && vstd::prelude::sub(a | h, a) == h &&& l & m == 0 &&& l == y & 0xffff_ffff_ffff_ffff &&& h == y >> 64 }) by(bit_vector) requires 0 < s < 64, a & m == 0, m == vstd::prelude::sub(1u64 << s, 1);
}
// one limb of a left shift
pub proof fn shl_step(v0: int, x: int, h: int, l: int, p: int, pre: int, tot: int, q: int)
    requires x * q == BB() * h + l, v0 == pre + x * p + q * (tot - (pre + x * p))
    ensures v0 + h * (BB() * p) + (l - x) * p == pre + q * (tot - pre)
{ assert(v0 + h * (BB() * p) + (l - x) * p == pre + q * (tot - pre)) by(nonlinear_arith) requires x * q == BB() * h + l, v0 == pre + x * p + q * (tot - (pre + x * p)); }
pub proof fn shr_bits(x: u64, s: u64) requires 0 < s < 64
    ensures (x >> s) * p2(s as int) + (x & msk(s)) == x, (x & msk(s)) < p2(s as int), 0 <= (x & msk(s))
{
    p2_shl(s);
    let m = msk(s);
    assert(m == vstd::prelude::sub(1u64 << s, 1));
    shl128(x >> s, s);
    assert(((x >> s) as u128) << s == (((x >> s) << s) as u128) && ((x >> s) << s) == vstd::prelude::sub(x, x & m) && (x & m) <= x && (x & m) < (1u64 << s)) by(bit_vector) requires 0 < s < 64, m == vstd::prelude::sub(1u64 << s, 1);
}
pub proof fn shr_or(x: u64, y: u64, s: u64) requires 0 < s < 64
    ensures ((x >> s) | ((y & msk(s)) << ((64 - s) as u64))) == (x >> s) + ((y & msk(s)) << ((64 - s) as u64)),
       ((y & msk(s)) << ((64 - s) as u64)) * p2(s as int) == (y & msk(s)) * BB()
{
    p2_shl(s);
    let m = msk(s); let t = (64 - s) as u64; let z = (y & m) << t;
    assert(m == vstd::prelude::sub(1u64 << s, 1));
    assert(((x >> s) | ((y & m) << t)) >= (x >> s) && vstd::prelude::sub((x >> s) | ((y & m) << t), x >> s) == ((y & m) << t)) by(bit_vector) requires 0 < s < 64, m == vstd::prelude::sub(1u64 << s, 1), t == vstd::prelude::sub(64, s);
    shl128(z, s);
    assert((((y & m) << t) as u128) << s == ((y & m) as u128) << 64) by(bit_vector) requires 0 < s < 64, m == vstd::prelude::sub(1u64 << s, 1), t == vstd::prelude::sub(64, s);
    shl64(y & m);
}
pub proof fn mod64(r: u64) ensures r & 63 == r % 64, (1u64 << 6) - 1 == 63 { assert(r & 63 == r % 64) by(bit_vector); assert((1u64 << 6) == 64) by(bit_vector); }

// an exponent of 2^64 or more exceeds the bit length of any number that fits in memory
pub proof fn p2_huge(n: int, l: int) requires n >= BB(), 0 <= l <= MAXLIMBS() ensures p2(n) >= bp(l) { bp_p2(l); ipow_mono(2, 64 * l, n); }
pub broadcast proof fn shl_ge1(s: u64) requires s < 64 ensures #[trigger] (1u64 << s) >= 1 { assert((1u64 << s) >= 1) by(bit_vector) requires s < 64; }
