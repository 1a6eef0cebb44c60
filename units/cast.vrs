// array to Vec: the real body over an array iterator whose contract is assumed
pub trait VCast<T>: Sized { spec fn cseq(self) -> Seq<T>; fn vcast(self) -> (r: Vec<T>) ensures r@ == self.cseq(); }
impl<T, const N: usize> VInto for [T; N] {
    type I = VOwned<T>;
    open spec fn into_ok(self, r: Self::I) -> bool { r.inv() && r.v@ == self@ && r.orig@ == self@ && r.k@ == 0 }
    open spec fn fin(self) -> bool { true }
    open spec fn vseq(self) -> Seq<<Self::I as VIter>::Item> { self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: Self::I) { unimplemented!() }
}
//@ file nanvm-lib/src/common/array.rs
//@ fn <Cast<Vec<T>> for [T; N]>::cast
//@ head impl<T, const N: usize> VCast<T> for [T; N]
//@ sub fn cast => fn vcast
//@ members
    open spec fn cseq(self) -> Seq<T> { self@ }
//@ loop 0
  !vst0.inf(), vk0 <= vst0.n(), result@.len() == vk0, vst0.n() == self@.len(),
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == self@[i],
  forall|i: int| 0 <= i < vk0 ==> result@[i] == self@[i],
//@ loop 0 after
  proof { assert(result@ =~= self@); }
//@ raw
