//@ include numbers_core.vrs
//@ raw
}
fn main(){}
