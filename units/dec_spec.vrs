//@ raw
// ---- doubles: the value of a finite non-negative double (bits without sign) in units of 2^-1074; infinity continues the scale
pub open spec fn F52() -> int { 0x10_0000_0000_0000 }
pub open spec fn INFB() -> int { 2047 * F52() }
pub open spec fn fval(b: int) -> int { if b < F52() { b } else { (F52() + b % F52()) * p2(b / F52() - 1) } }
// b is the double nearest to n/d, ties to even: n/d lies between the midpoints to the neighbours of b
#[verifier::opaque]
pub open spec fn nearest(n: int, d: int, b: int) -> bool {
    let x = n * p2(1075);   // twice the value in units
    &&& 0 <= b <= INFB()
    &&& b > 0 ==> (fval(b - 1) + fval(b)) * d <= x && (b % 2 == 1 ==> (fval(b - 1) + fval(b)) * d < x)
    &&& b < INFB() ==> x <= (fval(b) + fval(b + 1)) * d && (b % 2 == 1 ==> x < (fval(b) + fval(b + 1)) * d)
}
pub open spec fn sbit(s: Sign) -> int { if s == Sign::Negative { 0x8000_0000_0000_0000 } else { 0 } }
pub open spec fn fbits(f: f64) -> int { vstd::float::FloatBitsProperties::to_bits_spec(&f) as int }
// `f` is the double nearest to sign * dg * 10^e (ties to even, overflow to infinity); a zero keeps the sign
#[verifier::opaque]
pub open spec fn is_decb(b: int, s: Sign, dg: int, e: int) -> bool {
    if dg == 0 { b == sbit(s) } else { nearest(dg * ipow(10, e), ipow(10, -e), b - sbit(s)) }
}
pub open spec fn is_dec(f: f64, s: Sign, dg: int, e: int) -> bool { is_decb(fbits(f), s, dg, e) }
