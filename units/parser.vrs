//@ raw
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;
//@ include iters.vrs
//@ raw
}
use pre::*;
//@ include cast.vrs
//@ file nanvm-lib/src/common/default.rs
//@ fn default
  ensures T::default.ensures((), res)
//@ include path_core.vrs
//@ module parser
//@ raw
use super::pre::*;
//@ include parser_core.vrs
//@ raw
} // module end
}
fn main(){}
