//@ raw
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ file nanvm-lib/src/big_numbers/big_int.rs
//@ gsub #[derive(Debug, PartialEq, Clone, Copy, Eq)] => #[derive(PartialEq, Clone, Copy, Eq, Structural)]
//@ item enum Sign
//@ include pow_spec.vrs
//@ include dec_spec.vrs
//@ raw
pub open spec fn sg(s: Sign, n: int) -> int { match s { Sign::Positive => n, Sign::Negative => -n } }
pub open spec fn sat63(e: int) -> int { if e > i64::MAX { i64::MAX as int } else { e } }
// which file a name stands for (P02); no module is imported in what follows
pub uninterp spec fn resolve(from: Seq<char>, to: Seq<char>) -> Seq<char>;
//@ include gram_spec.vrs
//@ include lex_spec.vrs
//@ include ser_spec.vrs
//@ include djs_spec.vrs
//@ include roundtrip_core.vrs
//@ raw
}
fn main(){}
