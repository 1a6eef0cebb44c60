//@ gsub panic!("size overflow") => vpanic()
//@ gsub align_of::<T>() => valign_of::<T>()
//@ gsub align_of::<A>() => valign_of::<A>()
//@ gsub align_of::<I>() => valign_of::<I>()
//@ gsub align_of::<Self>() => valign_of::<Self>()
//@ gsub size_of::<T>() => vsize_of::<T>()
//@ gsub size_of::<I>() => vsize_of::<I>()
//@ gsub size_of::<Self>() => vsize_of::<Self>()
//@ gsub adjacent_align.is_power_of_two() => vis_pow2(adjacent_align)
//@ gsub (r as *const T).byte_add(self.size) as *const _ => vbyte_add::<T, A>(r, self.size)
//@ gsub (r as *mut T).byte_add(self.size) as *mut _ => vbyte_add::<T, A>(r, self.size)
//@ gsub (r as *mut A).byte_sub(self.size) as *mut _ => vbyte_sub::<A, T>(r, self.size)
//@ raw
// ---- sizes, alignments and layouts ----
use vstd::arithmetic::power2::pow2;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
pub open spec fn is_pow2(n: int) -> bool { exists|k: nat| k < 64 && n == #[trigger] pow2(k) }
// n rounded up to a multiple of a
pub open spec fn up(n: int, a: int) -> int { ((n + a - 1) / a) * a }
pub uninterp spec fn sz<T>() -> nat;
pub uninterp spec fn al<T>() -> nat;
// The Rust Reference, type layout: an alignment is a power of two (at most 2^29), a size is a multiple of the alignment and at most isize::MAX
#[verifier::external_body]
pub proof fn type_facts<T>()
    ensures is_pow2(al::<T>() as int), 1 <= al::<T>() <= 0x2000_0000, sz::<T>() % al::<T>() == 0, sz::<T>() <= 0x7FFF_FFFF_FFFF_FFFF
{}
#[verifier::external_body]
pub proof fn byte_facts() ensures al::<u8>() == 1 {}
#[verifier::external_body]
pub const fn vsize_of<T>() -> (r: usize) ensures r == sz::<T>() { core::mem::size_of::<T>() }
#[verifier::external_body]
pub const fn valign_of<T>() -> (r: usize) ensures r == al::<T>() { core::mem::align_of::<T>() }
#[verifier::external_body]
pub const fn vis_pow2(n: usize) -> (r: bool) ensures r == is_pow2(n as int) { n.is_power_of_two() }
#[verifier::external_body]
pub const fn vpanic() -> ! ensures false { panic!() }
// pointers are their addresses; an offset stays within the address space
#[verifier::external_body]
pub const unsafe fn vbyte_add<T, A>(p: *const T, n: usize) -> (r: *const A)
    requires (p as u64) + n <= u64::MAX
    ensures r as u64 == (p as u64) + n { (p as *const u8).add(n) as *const A }
#[verifier::external_body]
pub const unsafe fn vbyte_sub<T, A>(p: *const T, n: usize) -> (r: *const A)
    requires (p as u64) >= n
    ensures r as u64 == (p as u64) - n { (p as *const u8).sub(n) as *const A }
// core::alloc::Layout
#[derive(Clone, Copy)]
pub struct Layout { pub s: usize, pub a: usize }
pub open spec fn layout_ok(s: int, a: int) -> bool { is_pow2(a) && 0 <= s && up(s, a) <= 0x7FFF_FFFF_FFFF_FFFF }
impl Layout {
    pub open spec fn ok(self) -> bool { layout_ok(self.s as int, self.a as int) }
    #[verifier::external_body]
    pub const fn from_size_align(s: usize, a: usize) -> (r: Result<Layout, ()>)
        ensures r is Ok == layout_ok(s as int, a as int), r is Ok ==> r->Ok_0.s == s && r->Ok_0.a == a { unimplemented!() }
    pub const fn size(&self) -> (r: usize) ensures r == self.s { self.s }
    pub const fn align(&self) -> (r: usize) ensures r == self.a { self.a }
}
pub proof fn pow2_pos(n: int) requires is_pow2(n) ensures 1 <= n <= 0x8000_0000_0000_0000 {
    let k = choose|k: nat| k < 64 && n == #[trigger] pow2(k);
    vstd::arithmetic::power2::lemma_pow2_pos(k);
    if k < 63 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(k, 63); }
    vstd::arithmetic::power2::lemma2_to64_rest();
}
// of two powers of two the smaller divides the larger
pub proof fn pow2_divides(a: int, b: int) requires is_pow2(a), is_pow2(b), a <= b ensures b % a == 0 {
    let i = choose|k: nat| k < 64 && a == #[trigger] pow2(k);
    let j = choose|k: nat| k < 64 && b == #[trigger] pow2(k);
    if j < i { vstd::arithmetic::power2::lemma_pow2_strictly_increases(j, i); }
    vstd::arithmetic::power2::lemma_pow2_adds(i, (j - i) as nat);
    vstd::arithmetic::power2::lemma_pow2_pos(i);
    lemma_mod_multiples_basic(pow2((j - i) as nat) as int, a);
    lemma_mul_is_commutative(a, pow2((j - i) as nat) as int);
}
pub proof fn mod_trans(n: int, b: int, a: int) requires a > 0, b > 0, n % b == 0, b % a == 0 ensures n % a == 0 {
    lemma_fundamental_div_mod(n, b);
    lemma_fundamental_div_mod(b, a);
    assert(n == (n / b * (b / a)) * a) by(nonlinear_arith) requires n == b * (n / b), b == a * (b / a);
    lemma_mod_multiples_basic(n / b * (b / a), a);
}
pub proof fn mod_sum(x: int, y: int, a: int) requires a > 0, x % a == 0, y % a == 0 ensures (x + y) % a == 0 {
    lemma_mod_adds(x, y, a);
    lemma_fundamental_div_mod(x, a);
    lemma_fundamental_div_mod(y, a);
    assert(x + y == (x / a + y / a) * a) by(nonlinear_arith) requires x == a * (x / a), y == a * (y / a);
    lemma_mod_multiples_basic(x / a + y / a, a);
}
pub proof fn up_facts(n: int, a: int) requires a > 0, n >= 0 ensures up(n, a) >= n, up(n, a) < n + a, up(n, a) % a == 0 {
    let q = (n + a - 1) / a;
    lemma_fundamental_div_mod(n + a - 1, a);
    lemma_mod_bound(n + a - 1, a);
    lemma_mod_multiples_basic(q, a);
    assert(q * a == a * q) by(nonlinear_arith);
}
// the only multiple of a in [n, n + a)
pub proof fn up_unique(n: int, a: int, r: int) requires a > 0, n >= 0, r >= n, r < n + a, r % a == 0 ensures r == up(n, a) {
    up_facts(n, a);
    let q = (n + a - 1) / a;
    lemma_fundamental_div_mod(r, a);
    assert(r == (r / a) * a) by(nonlinear_arith) requires r == a * (r / a);
    let d = r / a - q;
    assert(r - up(n, a) == d * a) by(nonlinear_arith) requires r == (r / a) * a, up(n, a) == q * a, d == r / a - q;
    assert(d == 0) by(nonlinear_arith) requires -a < d * a < a, a > 0;
}
//@ file nanvm-lib/src/common/usize.rs
//@ fn max
  ensures res == if a > b { a } else { b }
//@ file nanvm-lib/src/mem/field_layout.rs
//@ item struct FieldLayout
//@ fn align_to
  requires is_pow2(align as int), i <= 0x7FFF_FFFF_FFFF_FFFF
  ensures res == up(i as int, align as int)
//@ start
  proof {
    pow2_pos(align as int);
    let k = choose|k: nat| k < 64 && align == #[trigger] pow2(k);
    let x = (i + align - 1) as u64;
    let m = (align - 1) as u64;
    assert(x & !m == x - (x & m) && x & m <= x) by(bit_vector);
    assert(vstd::bits::low_bits_mask(k) == m);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(x, k);
    lemma_mod_bound(x as int, align as int);
    lemma_fundamental_div_mod(x as int, align as int);
    let r = x - (x & m);
    assert(r == (x as int / align as int) * align) by(nonlinear_arith) requires x == align * (x as int / align as int) + x % (align as u64), r == x - x % (align as u64);
    lemma_mod_multiples_basic(x as int / align as int, align as int);
    up_unique(i as int, align as int, r as int);
  }
//@ fn add_size
  ensures res == a + b
//@ fn FieldLayout::align_to
  requires is_pow2(adjacent_align as int), adjacent_align >= al::<A>()
  ensures res.fits(adjacent_align as int)
//@ start
  proof { type_facts::<T>(); type_facts::<A>(); pow2_pos(adjacent_align as int); }
//@ fn FieldLayout::layout
  requires is_pow2(self.align as int)
  ensures res.s == self.size + a_size, res.a == self.align, res.ok()
//@ fn FieldLayout::to_adjacent
//@ sub r: &T => r: *const T
  requires (r as u64) + self.size <= u64::MAX
  ensures res as u64 == (r as u64) + self.size
//@ fn FieldLayout::into_adjacent_mut
//@ sub r: &mut T => r: *const T
//@ sub *mut A => *const A
  requires (r as u64) + self.size <= u64::MAX
  ensures res as u64 == (r as u64) + self.size
//@ fn FieldLayout::from_adjacent_mut
//@ sub r: &mut A => r: *const A
//@ sub *mut T => *const T
  requires (r as u64) >= self.size
  ensures res as u64 == (r as u64) - self.size
//@ raw
impl<T, A> FieldLayout<T, A> {
    // a T, then something aligned to a
    pub open spec fn fits(self, a: int) -> bool {
        &&& self.align == (if al::<T>() > a { al::<T>() as int } else { a })
        &&& self.size == up(sz::<T>() as int, a)
    }
}
// What the two make: at an address aligned to the layout, the T is aligned and within [p, p + size), what follows is
// aligned to a (so to its type), starts where the T has ended, and its s bytes end where the layout ends.
pub proof fn parts<T, A>(l: FieldLayout<T, A>, a: int, s: int, p: int)
    requires l.fits(a), is_pow2(a), a >= al::<A>(), p >= 0, p % (l.align as int) == 0, s >= 0
    ensures is_pow2(l.align as int), p % (al::<T>() as int) == 0, sz::<T>() <= l.size, l.size < sz::<T>() + a,
        (p + l.size) % a == 0, (p + l.size) % (al::<A>() as int) == 0,
{
    type_facts::<T>();
    type_facts::<A>();
    pow2_pos(a);
    up_facts(sz::<T>() as int, a);
    if al::<T>() > a { pow2_divides(a, al::<T>() as int); } else { pow2_divides(al::<T>() as int, a); }
    assert(a % a == 0) by(nonlinear_arith) requires a > 0;
    assert(al::<T>() as int % (al::<T>() as int) == 0) by(nonlinear_arith) requires al::<T>() > 0;
    mod_trans(p, l.align as int, al::<T>() as int);
    mod_trans(p, l.align as int, a);
    mod_sum(p, l.size as int, a);
    pow2_divides(al::<A>() as int, a);
    mod_trans(p + l.size, a, al::<A>() as int);
}
