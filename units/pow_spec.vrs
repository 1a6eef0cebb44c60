//@ raw
pub open spec fn ipow(b: int, e: int) -> int decreases e { if e <= 0 { 1 } else { b * ipow(b, e - 1) } }
pub open spec fn p2(n: int) -> int { ipow(2, n) }
