//@ include js_core.vrs
//@ raw
// a shared value: what it was before it was shared
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Ref<T, D> { pub t: T, pub d: D }
impl<T, D> Ref<T, D> { pub uninterp spec fn res(&self) -> T; }
impl<T, D> MutRef<T, D> {
    #[verifier::external_body]
    pub fn to_ref(self) -> (r: Ref<T, D>) ensures r.res() == self.res() { unimplemented!() }
}
pub type JsBigintRef<D> = Ref<JsBigint, D>;
pub mod old {
use super::*;
//@ file nanvm-lib/src/big_numbers/big_uint.rs
//@ gsub #[derive(Debug, PartialEq, Clone, Eq, Default)] => 
//@ item struct BigUint
//@ file nanvm-lib/src/big_numbers/big_int.rs
//@ gsub #[derive(Debug, PartialEq, Clone, Eq, Default)] => 
//@ item enum Sign
//@ item struct BigInt
//@ file nanvm-lib/src/parser/shared.rs
//@ gsub crate::js::js_bigint::Sign => super::Sign
//@ fn to_js_bigint
  requires norm(b.value.value@), val(b.value.value@) == 0 ==> b.sign is Positive, b.value.value@.len() <= isize::MAX
  ensures wf(res.res()), bi(res.res()) == (if b.sign is Positive { val(b.value.value@) } else { -val(b.value.value@) })
//@ raw
}
}
fn main(){}
