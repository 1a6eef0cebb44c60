//@ raw
#![allow(unused)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@ module anyval
//@ include anyval_core.vrs
//@ raw
} // module end
}
fn main(){}
