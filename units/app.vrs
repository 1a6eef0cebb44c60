//@ raw
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ module app
//@ include app_core.vrs
//@ raw
} // module end
}
fn main(){}
