//@ raw
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;
//@ include iters.vrs
//@ raw
}
use pre::*;
//@ include cast.vrs
//@ module path
//@ raw
use super::pre::*;
//@ include path_core.vrs
//@ raw
} // module end
}
fn main(){}
