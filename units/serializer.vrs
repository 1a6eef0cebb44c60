//@ raw
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
pub mod pre {
use super::*;
//@ include iters.vrs
//@ raw
}
use pre::*;
//@ module serializer
//@ raw
use super::pre::*;
//@ include ser_core.vrs
//@ include djs_core.vrs
//@ raw
} // module end
}
fn main(){}
