//@ raw
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;
//@ include iters.vrs
//@ raw
}
use pre::*;
//@ include cast.vrs
//@ file nanvm-lib/src/common/default.rs
//@ fn default
  ensures T::default.ensures((), res)
//@ include range_core.vrs
//@ raw
}
fn main() {}
