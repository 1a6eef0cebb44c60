//@ raw
pub trait RefCast<D: Dealloc>: Object {
    spec fn rty() -> Ty;
    spec fn rtag() -> u64;
    proof fn rlaw() ensures
        ty_ref(Self::rty()), val_word(Self::rtag(), 0xFFFF_0000_0000_0000, Self::rty()), low(Self::rtag()) == 0;
    // a block of the kind is a block of the type
    proof fn rok(h: Heap, a: u64) ensures okblock::<Self, D>(h, a) == anyok::<D>(Self::rty(), h, a);
    fn ref_subset() -> (res: BitSubset64<*const Block<Self, D>>) ensures res.tag == Self::rtag(), res.mask == 0xFFFF_0000_0000_0000u64;
}
//@ file nanvm-lib/src/js/js_string.rs
//@ constfn <RefCast<D> for JsString>::REF_SUBSET ref_subset
//@ head impl<D: Dealloc> RefCast<D> for JsString
//@ members
  open spec fn rty() -> Ty { Ty::String }
  open spec fn rtag() -> u64 { 0xFFFC_0000_0000_0000u64 }
  proof fn rok(h: Heap, a: u64) {}
  proof fn rlaw() {
    assert(0xFFFF_0000_0000_0000u64 & 0xFFFC_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64 && 0xFFFC_0000_0000_0000u64 & 0xFFFF_FFFF_FFFFu64 == 0) by(bit_vector);
    assert forall|u: u64| #[trigger] (u & 0xFFFF_0000_0000_0000u64) == 0xFFFC_0000_0000_0000u64 <==> ty_of(u) == Ty::String by {
      assert((u & 0xFFFF_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64) == (0xFFFC_0000_0000_0000u64 <= u < 0xFFFD_0000_0000_0000u64)) by(bit_vector);
    }
  }
//@ file nanvm-lib/src/js/js_object.rs
//@ constfn <RefCast<D> for JsObject<D>>::REF_SUBSET ref_subset
//@ head impl<D: Dealloc> RefCast<D> for JsObject<D>
//@ members
  open spec fn rty() -> Ty { Ty::Object }
  open spec fn rtag() -> u64 { 0xFFFD_0000_0000_0000u64 }
  proof fn rok(h: Heap, a: u64) {}
  proof fn rlaw() {
    assert(0xFFFF_0000_0000_0000u64 & 0xFFFD_0000_0000_0000u64 == 0xFFFD_0000_0000_0000u64 && 0xFFFD_0000_0000_0000u64 & 0xFFFF_FFFF_FFFFu64 == 0) by(bit_vector);
    assert forall|u: u64| #[trigger] (u & 0xFFFF_0000_0000_0000u64) == 0xFFFD_0000_0000_0000u64 <==> ty_of(u) == Ty::Object by {
      assert((u & 0xFFFF_0000_0000_0000u64 == 0xFFFD_0000_0000_0000u64) == (0xFFFD_0000_0000_0000u64 <= u < 0xFFFE_0000_0000_0000u64)) by(bit_vector);
    }
  }
//@ file nanvm-lib/src/js/js_array.rs
//@ constfn <RefCast<D> for JsArray<D>>::REF_SUBSET ref_subset
//@ head impl<D: Dealloc> RefCast<D> for JsArray<D>
//@ members
  open spec fn rty() -> Ty { Ty::Array }
  open spec fn rtag() -> u64 { 0xFFFE_0000_0000_0000u64 }
  proof fn rok(h: Heap, a: u64) {}
  proof fn rlaw() {
    assert(0xFFFF_0000_0000_0000u64 & 0xFFFE_0000_0000_0000u64 == 0xFFFE_0000_0000_0000u64 && 0xFFFE_0000_0000_0000u64 & 0xFFFF_FFFF_FFFFu64 == 0) by(bit_vector);
    assert forall|u: u64| #[trigger] (u & 0xFFFF_0000_0000_0000u64) == 0xFFFE_0000_0000_0000u64 <==> ty_of(u) == Ty::Array by {
      assert((u & 0xFFFF_0000_0000_0000u64 == 0xFFFE_0000_0000_0000u64) == (0xFFFE_0000_0000_0000u64 <= u < 0xFFFF_0000_0000_0000u64)) by(bit_vector);
    }
  }
//@ file nanvm-lib/src/js/js_bigint.rs
//@ constfn <RefCast<D> for JsBigint>::REF_SUBSET ref_subset
//@ head impl<D: Dealloc> RefCast<D> for JsBigint
//@ members
  open spec fn rty() -> Ty { Ty::Bigint }
  open spec fn rtag() -> u64 { 0xFFFF_0000_0000_0000u64 }
  proof fn rok(h: Heap, a: u64) {}
  proof fn rlaw() {
    assert(0xFFFF_0000_0000_0000u64 & 0xFFFF_0000_0000_0000u64 == 0xFFFF_0000_0000_0000u64 && 0xFFFF_0000_0000_0000u64 & 0xFFFF_FFFF_FFFFu64 == 0) by(bit_vector);
    assert forall|u: u64| #[trigger] (u & 0xFFFF_0000_0000_0000u64) == 0xFFFF_0000_0000_0000u64 <==> ty_of(u) == Ty::Bigint by {
      assert((u & 0xFFFF_0000_0000_0000u64 == 0xFFFF_0000_0000_0000u64) == (0xFFFF_0000_0000_0000u64 <= u)) by(bit_vector);
    }
  }
