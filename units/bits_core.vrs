//@ gsub #[derive(Debug)] =>
//@ gsub #[derive(Debug, PartialEq)] =>
//@ gsub D: Dealloc = Global => D: Dealloc
//@ gsub self as *const T => vptr::<T>(self)
//@ gsub (pub u64, PhantomData<*const D>) => (pub u64, pub PhantomData<*const D>)
//@ gsub f64::NAN.to_bits() => vnan_bits()
//@ gsub self.is_nan() => vis_nan(self)
//@ gsub self.to_bits() => vto_bits(self)
//@ gsub Self::from_bits(u) => vfrom_bits(u)
//@ gsub T::SUBSET => T::subset()
//@ raw
// ---- the words of values ----
// kinds of values, by the top 16 bits of the word
pub enum Ty { Number, Bool, Null, String, Object, Array, Bigint }
pub open spec fn ty_of(u: u64) -> Ty {
    if u < 0xFFF8_0000_0000_0000 { Ty::Number }
    else if u < 0xFFFA_0000_0000_0000 { Ty::Bool }
    else if u < 0xFFFC_0000_0000_0000 { Ty::Null }
    else if u < 0xFFFD_0000_0000_0000 { Ty::String }
    else if u < 0xFFFE_0000_0000_0000 { Ty::Object }
    else if u < 0xFFFF_0000_0000_0000 { Ty::Array }
    else { Ty::Bigint }
}
pub open spec fn ty_ref(t: Ty) -> bool { t is String || t is Object || t is Array || t is Bigint }
pub open spec fn low(u: u64) -> u64 { u & 0xFFFF_FFFF_FFFF }
// binary64: the word of a number
pub uninterp spec fn bits(f: f64) -> u64;
pub open spec fn nanw(u: u64) -> bool { (u & 0x7FF0_0000_0000_0000) == 0x7FF0_0000_0000_0000 && (u & 0x000F_FFFF_FFFF_FFFF) != 0 }
#[verifier::external_body]
pub fn vis_nan(f: f64) -> (r: bool) ensures r == nanw(bits(f)) { f.is_nan() }
#[verifier::external_body]
pub fn vto_bits(f: f64) -> (r: u64) ensures r == bits(f) { f.to_bits() }
#[verifier::external_body]
pub fn vfrom_bits(u: u64) -> (r: f64) ensures bits(r) == u { f64::from_bits(u) }
#[verifier::external_body]
pub fn vnan_bits() -> (r: u64) ensures r == 0x7FF8_0000_0000_0000 { f64::NAN.to_bits() }
// pointers: the cast of an integer is the pointer with that address
#[verifier::external_body]
pub fn vptr<T>(u: u64) -> (r: *const T) ensures r as u64 == u { u as *const T }
// ---- casts ----
pub trait Cast<T>: Sized {
    spec fn rel(self, t: T) -> bool;
    fn cast(self) -> (res: T) ensures self.rel(res);
}
//@ file nanvm-lib/src/common/cast.rs
//@ fn <Cast<u64> for u64>::cast
//@ members
  open spec fn rel(self, t: u64) -> bool { t == self }
//@ fn <Cast<*const T> for u64>::cast
//@ members
  open spec fn rel(self, t: *const T) -> bool { t as u64 == self }
//@ fn <Cast<u64> for *const T>::cast
//@ members
  open spec fn rel(self, t: u64) -> bool { t == self as u64 }
//@ fn <Cast<u64> for bool>::cast
//@ members
  open spec fn rel(self, t: u64) -> bool { t == if self { 1u64 } else { 0u64 } }
//@ fn <Cast<bool> for u64>::cast
//@ members
  open spec fn rel(self, t: bool) -> bool { t == (self != 0) }
//@ file nanvm-lib/src/js/null.rs
//@ item struct Null
//@ fn <Cast<u64> for Null>::cast
//@ members
  open spec fn rel(self, t: u64) -> bool { t == 0 }
//@ fn <Cast<Null> for u64>::cast
//@ members
  open spec fn rel(self, t: Null) -> bool { true }

// ---- subsets of words ----
//@ file nanvm-lib/src/common/bit_subset64.rs
//@ item struct BitSubset64
//@ fn <Clone for BitSubset64<T>>::clone
  ensures res == *self
//@ raw
impl<T: Cast<u64>> Copy for BitSubset64<T> where u64: Cast<T> {}
//@ fn BitSubset64<u64>::cast
  ensures res.tag == self.tag, res.mask == self.mask
//@ fn BitSubset64<T>::from_tag_and_mask
  requires mask & tag == tag
  ensures res.tag == tag, res.mask == mask
//@ fn BitSubset64<T>::from_tag_and_superposition
  requires !sup & tag == tag
  ensures res.tag == tag, res.mask == !sup
//@ fn BitSubset64<T>::from_tag_and_union
  requires tag & union == tag
  ensures res.tag == tag, res.mask == !(tag ^ union)
//@ start
  assert(!(tag ^ union) & tag == tag) by(bit_vector) requires tag & union == tag;
//@ fn BitSubset64<T>::from_tag
  ensures res.tag == tag, res.mask == tag
//@ start
  assert(tag & tag == tag) by(bit_vector);
//@ fn BitSubset64<T>::has
  ensures res == (value & self.mask == self.tag)
//@ fn BitSubset64<T>::superposition
  ensures res == !self.mask
//@ fn BitSubset64<T>::union
  requires self.mask & self.tag == self.tag
  ensures res == self.tag | !self.mask
//@ start
  let ghost (t, k) = (self.tag, self.mask);
  assert(t ^ !k == t | !k) by(bit_vector) requires k & t == t;
//@ fn BitSubset64<T>::or_unchecked
  requires self.mask & self.tag == self.tag, b.mask & b.tag == b.tag
  ensures res.mask & res.tag == res.tag,
    // the smallest subset with the words of both
    forall|v: u64| #![trigger v & self.mask] v & self.mask == self.tag ==> v & res.mask == res.tag,
    forall|v: u64| #![trigger v & b.mask] v & b.mask == b.tag ==> v & res.mask == res.tag,
    res.tag == self.tag & b.tag, !res.mask == res.tag ^ ((self.tag | !self.mask) | (b.tag | !b.mask))
//@ start
  let ghost (t, k, bt, bk) = (self.tag, self.mask, b.tag, b.mask);
  let ghost (rt, ru) = (t & bt, (t | !k) | (bt | !bk));
  assert(rt & ru == rt && !(rt ^ ru) & rt == rt && !!(rt ^ ru) == rt ^ ru) by(bit_vector) requires rt == t & bt, ru == (t | !k) | (bt | !bk);
  assert forall|v: u64| v & k == t implies #[trigger] (v & !(rt ^ ru)) == rt by {
    assert(v & !(rt ^ ru) == rt) by(bit_vector) requires v & k == t, rt == t & bt, ru == (t | !k) | (bt | !bk), k & t == t, bk & bt == bt;
  }
  assert forall|v: u64| v & bk == bt implies #[trigger] (v & !(rt ^ ru)) == rt by {
    assert(v & !(rt ^ ru) == rt) by(bit_vector) requires v & bk == bt, rt == t & bt, ru == (t | !k) | (bt | !bk), k & t == t, bk & bt == bt;
  }
//@ fn BitSubset64<T>::or
  requires self.mask & self.tag == self.tag, b.mask & b.tag == b.tag, self.mask == b.mask
  ensures res.mask & res.tag == res.tag, res.tag == self.tag & b.tag, !res.mask == !self.mask | (self.tag ^ b.tag),
    forall|v: u64| #![trigger v & self.mask] v & self.mask == self.tag ==> v & res.mask == res.tag,
    forall|v: u64| #![trigger v & b.mask] v & b.mask == b.tag ==> v & res.mask == res.tag
//@ start
  let ghost (t, k, bt, bk) = (self.tag, self.mask, b.tag, b.mask);
  assert((t & bt) ^ ((t | !k) | (bt | !k)) == !k | (t ^ bt)) by(bit_vector) requires k & t == t, k & bt == bt;
//@ fn BitSubset64<T>::and
  requires self.mask & self.tag == self.tag, b.mask & b.tag == b.tag,
    exists|v: u64| #![trigger v & self.mask] v & self.mask == self.tag && v & b.mask == b.tag
  ensures res.mask & res.tag == res.tag,
    forall|v: u64| #![trigger v & res.mask] v & res.mask == res.tag <==> v & self.mask == self.tag && v & b.mask == b.tag
//@ start
  let ghost (t, k, bt, bk) = (self.tag, self.mask, b.tag, b.mask);
  let ghost w: u64 = choose|v: u64| #![trigger v & self.mask] v & self.mask == self.tag && v & b.mask == b.tag;
  let ghost (rt, ru) = (t | bt, (t | !k) & (bt | !bk));
  assert(rt & ru == rt && !(rt ^ ru) & rt == rt) by(bit_vector) requires rt == t | bt, ru == (t | !k) & (bt | !bk), w & k == t, w & bk == bt;
  assert forall|v: u64| #[trigger] (v & !(rt ^ ru)) == rt <==> v & k == t && v & bk == bt by {
    assert((v & !(rt ^ ru) == rt) == (v & k == t && v & bk == bt)) by(bit_vector) requires rt == t | bt, ru == (t | !k) & (bt | !bk), k & t == t, bk & bt == bt, w & k == t, w & bk == bt;
  }
//@ fn BitSubset64<T>::split
  requires self.mask & self.tag == self.tag, sub_mask != 0, sub_mask & self.mask == 0
  ensures res.0.tag == self.tag, res.0.mask == self.mask | sub_mask, res.1.tag == self.tag | sub_mask, res.1.mask == self.mask | sub_mask,
//@ start
  let ghost (t, k) = (self.tag, self.mask);
  assert((k | sub_mask) & t == t && (k | sub_mask) & (t | sub_mask) == t | sub_mask) by(bit_vector) requires k & t == t, sub_mask & k == 0;
//@ fn BitSubset64<T>::subset_value_to_raw_value
  ensures res == !self.mask & set
//@ fn BitSubset64<T>::raw_value_to_subset_value
  ensures res == self.tag | value
//@ fn BitSubset64<T>::typed_value_to_subset_value
  ensures exists|w: u64| value.rel(w) && res == self.tag | w
//@ fn BitSubset64<T>::subset_value_to_typed_value
  ensures (!self.mask & set).rel(res)
//@ raw

// ---- the subsets of the kinds ----
//@ file nanvm-lib/src/js/bitset.rs
//@ constx EXTENSION
  ensures EXTENSION.tag == 0xFFF8_0000_0000_0000u64, EXTENSION.mask == 0xFFF8_0000_0000_0000u64
//@ constx EXTENSION_SPLIT
  ensures EXTENSION_SPLIT.0.tag == 0xFFF8_0000_0000_0000u64, EXTENSION_SPLIT.0.mask == 0xFFFC_0000_0000_0000u64,
    EXTENSION_SPLIT.1.tag == 0xFFFC_0000_0000_0000u64, EXTENSION_SPLIT.1.mask == 0xFFFC_0000_0000_0000u64
//@ start
  proof { splits(); }
//@ constx SIMPLE
  ensures SIMPLE.tag == 0xFFF8_0000_0000_0000u64, SIMPLE.mask == 0xFFFC_0000_0000_0000u64
//@ constx REF
  ensures REF.tag == 0xFFFC_0000_0000_0000u64, REF.mask == 0xFFFC_0000_0000_0000u64
//@ constx SIMPLE_SPLIT
  ensures SIMPLE_SPLIT.0.tag == 0xFFF8_0000_0000_0000u64, SIMPLE_SPLIT.0.mask == 0xFFFE_0000_0000_0000u64,
    SIMPLE_SPLIT.1.tag == 0xFFFA_0000_0000_0000u64, SIMPLE_SPLIT.1.mask == 0xFFFE_0000_0000_0000u64
//@ start
  proof { splits(); }
//@ constx BOOL
  ensures BOOL.tag == 0xFFF8_0000_0000_0000u64, BOOL.mask == 0xFFFE_0000_0000_0000u64
//@ constx FALSE
  ensures FALSE == 0xFFF8_0000_0000_0000u64
//@ start
  proof { splits(); }
//@ constx TRUE
  ensures TRUE == 0xFFF8_0000_0000_0001u64
//@ start
  proof { splits(); }
//@ constx NULL
  ensures NULL.tag == 0xFFFA_0000_0000_0000u64, NULL.mask == 0xFFFE_0000_0000_0000u64
//@ item const REF_SUBSET_SUPERPOSITION
//@ constx REF_SPLIT
  ensures REF_SPLIT.0.tag == 0xFFFC_0000_0000_0000u64, REF_SPLIT.0.mask == 0xFFFE_0000_0000_0000u64,
    REF_SPLIT.1.tag == 0xFFFE_0000_0000_0000u64, REF_SPLIT.1.mask == 0xFFFE_0000_0000_0000u64
//@ start
  proof { splits(); }
//@ constx STRING_OBJECT
  ensures STRING_OBJECT.0.tag == 0xFFFC_0000_0000_0000u64, STRING_OBJECT.0.mask == 0xFFFF_0000_0000_0000u64,
    STRING_OBJECT.1.tag == 0xFFFD_0000_0000_0000u64, STRING_OBJECT.1.mask == 0xFFFF_0000_0000_0000u64
//@ start
  proof { splits(); }
//@ constx ARRAY_BIGINT
  ensures ARRAY_BIGINT.0.tag == 0xFFFE_0000_0000_0000u64, ARRAY_BIGINT.0.mask == 0xFFFF_0000_0000_0000u64,
    ARRAY_BIGINT.1.tag == 0xFFFF_0000_0000_0000u64, ARRAY_BIGINT.1.mask == 0xFFFF_0000_0000_0000u64
//@ start
  proof { splits(); }
//@ constx STRING
  ensures STRING.tag == 0xFFFC_0000_0000_0000u64, STRING.mask == 0xFFFF_0000_0000_0000u64
//@ constx OBJECT
  ensures OBJECT.tag == 0xFFFD_0000_0000_0000u64, OBJECT.mask == 0xFFFF_0000_0000_0000u64
//@ constx ARRAY
  ensures ARRAY.tag == 0xFFFE_0000_0000_0000u64, ARRAY.mask == 0xFFFF_0000_0000_0000u64
//@ constx BIGINT
  ensures BIGINT.tag == 0xFFFF_0000_0000_0000u64, BIGINT.mask == 0xFFFF_0000_0000_0000u64
//@ item const REF_TYPE_STRING
//@ item const REF_TYPE_OBJECT
//@ item const REF_TYPE_ARRAY
//@ item const REF_TYPE_BIGINT
//@ fn ref_type
  ensures ty_of(v) is String ==> res == REF_TYPE_STRING, ty_of(v) is Object ==> res == REF_TYPE_OBJECT,
    ty_of(v) is Array ==> res == REF_TYPE_ARRAY, ty_of(v) is Bigint ==> res == REF_TYPE_BIGINT, res < 4
//@ start
  assert(((v >> 48) & 0b11) < 4 && (((v >> 48) & 0b11) as u8) as u64 == (v >> 48) & 0b11) by(bit_vector);
  assert(0xFFFC_0000_0000_0000u64 <= v < 0xFFFD_0000_0000_0000u64 ==> ((v >> 48) & 0b11) == 0) by(bit_vector);
  assert(0xFFFD_0000_0000_0000u64 <= v < 0xFFFE_0000_0000_0000u64 ==> ((v >> 48) & 0b11) == 1) by(bit_vector);
  assert(0xFFFE_0000_0000_0000u64 <= v < 0xFFFF_0000_0000_0000u64 ==> ((v >> 48) & 0b11) == 2) by(bit_vector);
  assert(0xFFFF_0000_0000_0000u64 <= v ==> ((v >> 48) & 0b11) == 3) by(bit_vector);
//@ raw
proof fn splits()
    ensures
        0x0004_0000_0000_0000u64 & 0xFFF8_0000_0000_0000u64 == 0, 0xFFF8_0000_0000_0000u64 & 0xFFF8_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64,
        0xFFF8_0000_0000_0000u64 | 0x0004_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64,
        0x0002_0000_0000_0000u64 & 0xFFFC_0000_0000_0000u64 == 0, 0xFFFC_0000_0000_0000u64 & 0xFFF8_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64,
        0xFFFC_0000_0000_0000u64 | 0x0002_0000_0000_0000u64 == 0xFFFE_0000_0000_0000u64, 0xFFF8_0000_0000_0000u64 | 0x0002_0000_0000_0000u64 == 0xFFFA_0000_0000_0000u64,
        0xFFFC_0000_0000_0000u64 & 0xFFFC_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64,
        0x0001_0000_0000_0000u64 & 0xFFFE_0000_0000_0000u64 == 0, 0xFFFE_0000_0000_0000u64 & 0xFFFC_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64,
        0xFFFE_0000_0000_0000u64 & 0xFFFE_0000_0000_0000u64 == 0xFFFE_0000_0000_0000u64,
        0xFFFE_0000_0000_0000u64 | 0x0001_0000_0000_0000u64 == 0xFFFF_0000_0000_0000u64, 0xFFFC_0000_0000_0000u64 | 0x0001_0000_0000_0000u64 == 0xFFFD_0000_0000_0000u64,
        0xFFF8_0000_0000_0000u64 | 0u64 == 0xFFF8_0000_0000_0000u64, 0xFFF8_0000_0000_0000u64 | 1u64 == 0xFFF8_0000_0000_0001u64,
{
    assert(0x0004_0000_0000_0000u64 & 0xFFF8_0000_0000_0000u64 == 0 && 0xFFF8_0000_0000_0000u64 & 0xFFF8_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64
        && 0xFFF8_0000_0000_0000u64 | 0x0004_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64
        && 0x0002_0000_0000_0000u64 & 0xFFFC_0000_0000_0000u64 == 0 && 0xFFFC_0000_0000_0000u64 & 0xFFF8_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64
        && 0xFFFC_0000_0000_0000u64 | 0x0002_0000_0000_0000u64 == 0xFFFE_0000_0000_0000u64 && 0xFFF8_0000_0000_0000u64 | 0x0002_0000_0000_0000u64 == 0xFFFA_0000_0000_0000u64
        && 0xFFFC_0000_0000_0000u64 & 0xFFFC_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64
        && 0x0001_0000_0000_0000u64 & 0xFFFE_0000_0000_0000u64 == 0 && 0xFFFE_0000_0000_0000u64 & 0xFFFC_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64
        && 0xFFFE_0000_0000_0000u64 & 0xFFFE_0000_0000_0000u64 == 0xFFFE_0000_0000_0000u64
        && 0xFFFE_0000_0000_0000u64 | 0x0001_0000_0000_0000u64 == 0xFFFF_0000_0000_0000u64 && 0xFFFC_0000_0000_0000u64 | 0x0001_0000_0000_0000u64 == 0xFFFD_0000_0000_0000u64
        && 0xFFF8_0000_0000_0000u64 | 0u64 == 0xFFF8_0000_0000_0000u64 && 0xFFF8_0000_0000_0000u64 | 1u64 == 0xFFF8_0000_0000_0001u64) by(bit_vector);
}

// ---- values in words ----
pub open spec fn val_word(tag: u64, mask: u64, ty: Ty) -> bool {
    mask & tag == tag && forall|u: u64| #![trigger u & mask] (u & mask == tag) == (ty_of(u) == ty)
}
pub trait ValueCast: Sized + Cast<u64> where u64: Cast<Self> {
    spec fn vty() -> Ty;
    spec fn vtag() -> u64;
    spec fn vmask() -> u64;
    // what makes the kind recognizable and the value readable
    proof fn law() ensures
        val_word(Self::vtag(), Self::vmask(), Self::vty()), !ty_ref(Self::vty()),
        forall|v: Self, w: u64| #[trigger] v.rel(w) ==> (Self::vtag() | w) & Self::vmask() == Self::vtag(),
        forall|v: Self, w: u64, v2: Self| #![trigger v.rel(w), (!Self::vmask() & (Self::vtag() | w)).rel(v2)]
            v.rel(w) && (!Self::vmask() & (Self::vtag() | w)).rel(v2) ==> v2 == v;
    fn subset() -> (res: BitSubset64<Self>) ensures res.tag == Self::vtag(), res.mask == Self::vmask();
}
//@ file nanvm-lib/src/js/bool.rs
//@ constfn <ValueCast for bool>::SUBSET subset
//@ head impl ValueCast for bool
//@ members
  open spec fn vty() -> Ty { Ty::Bool }
  open spec fn vtag() -> u64 { 0xFFF8_0000_0000_0000u64 }
  open spec fn vmask() -> u64 { 0xFFFE_0000_0000_0000u64 }
  proof fn law() {
    assert(0xFFFE_0000_0000_0000u64 & 0xFFF8_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64) by(bit_vector);
    assert forall|u: u64| #[trigger] (u & 0xFFFE_0000_0000_0000u64) == 0xFFF8_0000_0000_0000u64 <==> ty_of(u) == Ty::Bool by {
      assert((u & 0xFFFE_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64) == (0xFFF8_0000_0000_0000u64 <= u < 0xFFFA_0000_0000_0000u64)) by(bit_vector);
    }
    assert((0xFFF8_0000_0000_0000u64 | 0u64) & 0xFFFE_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64 && (0xFFF8_0000_0000_0000u64 | 1u64) & 0xFFFE_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64
      && !0xFFFE_0000_0000_0000u64 & (0xFFF8_0000_0000_0000u64 | 0u64) == 0 && !0xFFFE_0000_0000_0000u64 & (0xFFF8_0000_0000_0000u64 | 1u64) == 1) by(bit_vector);
  }
//@ file nanvm-lib/src/js/null.rs
//@ constfn <ValueCast for Null>::SUBSET subset
//@ head impl ValueCast for Null
//@ members
  open spec fn vty() -> Ty { Ty::Null }
  open spec fn vtag() -> u64 { 0xFFFA_0000_0000_0000u64 }
  open spec fn vmask() -> u64 { 0xFFFE_0000_0000_0000u64 }
  proof fn law() {
    assert(0xFFFE_0000_0000_0000u64 & 0xFFFA_0000_0000_0000u64 == 0xFFFA_0000_0000_0000u64) by(bit_vector);
    assert forall|u: u64| #[trigger] (u & 0xFFFE_0000_0000_0000u64) == 0xFFFA_0000_0000_0000u64 <==> ty_of(u) == Ty::Null by {
      assert((u & 0xFFFE_0000_0000_0000u64 == 0xFFFA_0000_0000_0000u64) == (0xFFFA_0000_0000_0000u64 <= u < 0xFFFC_0000_0000_0000u64)) by(bit_vector);
    }
    assert((0xFFFA_0000_0000_0000u64 | 0u64) & 0xFFFE_0000_0000_0000u64 == 0xFFFA_0000_0000_0000u64) by(bit_vector);
  }
