//@ include bits_core.vrs
//@ gsub (self.0 & REF_SUBSET_SUPERPOSITION) as _ => vptr(self.0 & REF_SUBSET_SUPERPOSITION)
//@ gsub (v & REF_SUBSET_SUPERPOSITION) as *const Block<T, D> => vptr::<Block<T, D>>(v & REF_SUBSET_SUPERPOSITION)
//@ gsub &*p => vdrf(p)
//@ gsub .value.to_mut_ptr().read() => .value
//@ gsub T::REF_SUBSET => T::ref_subset()
//@ gsub Number = 0 => Number
//@ gsub Bool = 1 => Bool
//@ gsub String = 2 => String
//@ gsub Null = 3 => Null
//@ gsub Object = 4 => Object
//@ gsub Array = 5 => Array
//@ gsub Bigint = 6 => Bigint
//@ raw
pub uninterp spec fn place<T>(r: &T) -> u64;
#[verifier::external_body]
pub unsafe fn vdrf<'a, T>(p: *const T) -> (r: &'a T) ensures place(r) == p as u64 { &*p }
#[verifier::external_body]
pub fn forget<T>(x: T) { core::mem::forget(x) }

pub trait Dealloc: Sized { type BlockHeader; }
pub trait Object: Sized {}
pub struct Block<T: Object, D: Dealloc> { pub header: D::BlockHeader, pub _0: PhantomData<T> }

pub struct FlexibleArray<T, H> { pub header: H, pub _0: PhantomData<T> }
impl<T, H> Object for FlexibleArray<T, H> {}
pub struct JsBigintHeader { pub len: isize }
pub type JsString = FlexibleArray<u16, usize>;
pub type JsArray<D> = FlexibleArray<Any<D>, usize>;
pub type Property<D> = (OptionalRef<*const Block<JsString, D>>, Any<D>);
pub type JsObject<D> = FlexibleArray<Property<D>, usize>;
pub type JsBigint = FlexibleArray<u64, JsBigintHeader>;
// (what is at an address is the unit mem's)
pub struct Heap {}
pub open spec fn okblock<T, D>(h: Heap, a: u64) -> bool { true }
pub open spec fn anyok<D>(t: Ty, h: Heap, a: u64) -> bool { true }
//@ include refcast_core.vrs
//@ raw

// ---- what a value adds to a hash: the words given to the hasher, in order ----
pub trait Hasher: Sized {
    spec fn words(&self) -> Seq<u64>;
    // core::hash::Hash for u64 and for a thin pointer: one word, the number or the address
    fn write_u64(&mut self, x: u64) ensures final(self).words() == old(self).words().push(x);
}

// ---- references ----
pub trait OptionalBlock: Copy {
    type BlockHeader;
    spec fn isref(self) -> bool;
    spec fn at(self) -> u64;
    // the same word
    spec fn eqw(self, o: Self) -> bool;
    fn is_ref(self) -> (res: bool) ensures res == self.isref();
    unsafe fn try_get_block_header(self) -> (res: Option<*const Self::BlockHeader>)
        ensures res is Some == self.isref(), res is Some ==> res->Some_0 as u64 == self.at();
    fn veq(&self, other: &Self) -> (res: bool) ensures res == self.eqw(*other);
    spec fn hashed(self) -> Seq<u64>;
    fn vhash<H: Hasher>(&self, state: &mut H) ensures final(state).words() == old(state).words() + self.hashed();
    // equal values hash alike: a map with values as keys finds what it was given
    proof fn hash_of_equal(self, o: Self) requires self.eqw(o) ensures self.hashed() == o.hashed();
}
//@ file nanvm-lib/src/js/any_internal.rs
//@ item struct AnyInternal
#[verifier::reject_recursive_types(D)]
//@ fn <Clone for AnyInternal<D>>::clone
  ensures res == *self
//@ raw
impl<D: Dealloc> Copy for AnyInternal<D> {}
//@ fn <PartialEq for AnyInternal<D>>::eq
//@ head impl<D: Dealloc> AnyInternal<D>
  ensures res == self.eqw(*other)
//@ fn <Hash for AnyInternal<D>>::hash
//@ head impl<D: Dealloc> AnyInternal<D>
//@ sub self.0.hash(state) => state.write_u64(self.0)
  ensures final(state).words() =~= old(state).words() + seq![self.0]
//@ fn AnyInternal<D>::new
  ensures res.0 == v
//@ fn <OptionalBlock for AnyInternal<D>>::is_ref
//@ head impl<D: Dealloc> OptionalBlock for AnyInternal<D>
//@ members
    type BlockHeader = D::BlockHeader;
    open spec fn isref(self) -> bool { ty_ref(ty_of(self.0)) }
    open spec fn at(self) -> u64 { low(self.0) }
    open spec fn eqw(self, o: Self) -> bool { self.0 == o.0 }
    fn veq(&self, other: &Self) -> bool { self.eq(other) }
    open spec fn hashed(self) -> Seq<u64> { seq![self.0] }
    fn vhash<H: Hasher>(&self, state: &mut H) { self.hash(state) }
    proof fn hash_of_equal(self, o: Self) { }
//@ start
  proof { let u = self.0; assert((u & 0xFFFC_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64) == (u >= 0xFFFC_0000_0000_0000u64)) by(bit_vector); }
//@ fn <OptionalBlock for AnyInternal<D>>::try_get_block_header
//@ same
//@ file nanvm-lib/src/mem/optional_ref.rs
//@ item struct OptionalRef
//@ fn OptionalRef<T>::from_internal
  ensures res.value == value
//@ fn OptionalRef<T>::internal
  ensures res == self.value
//@ fn OptionalRef<T>::is_ref
  ensures res == self.value.isref()
//@ fn OptionalRef<T>::move_to_internal
  ensures res == self.value
//@ fn <PartialEq for OptionalRef<T>>::eq
//@ head impl<T: OptionalBlock> OptionalRef<T>
//@ sub self.value == other.value => self.value.veq(&other.value)
  ensures res == self.value.eqw(other.value)
//@ fn <Hash for OptionalRef<T>>::hash
//@ head impl<T: OptionalBlock> OptionalRef<T>
//@ sub self.value.hash(state) => self.value.vhash(state)
  ensures final(state).words() == old(state).words() + self.value.hashed()
//@ raw
pub type Ref<T, D> = OptionalRef<*const Block<T, D>>;
#[verifier::external_body]
pub unsafe fn vheader<T: Object, D: Dealloc>(p: *const Block<T, D>) -> (r: *const D::BlockHeader) ensures r as u64 == p as u64 { &(*p).header }
//@ file nanvm-lib/src/mem/optional_block.rs
//@ fn <OptionalBlock for *const Block<T, D>>::is_ref
//@ head impl<T: Object, D: Dealloc> OptionalBlock for *const Block<T, D>
//@ members
    type BlockHeader = D::BlockHeader;
    open spec fn isref(self) -> bool { true }
    open spec fn at(self) -> u64 { self as u64 }
    open spec fn eqw(self, o: Self) -> bool { self as u64 == o as u64 }
    #[verifier::external_body]
    fn veq(&self, other: &Self) -> bool { *self == *other }
    open spec fn hashed(self) -> Seq<u64> { seq![self as u64] }
    fn vhash<H: Hasher>(&self, state: &mut H) { state.write_u64(*self as u64); assert(state.words() =~= old(state).words() + self.hashed()); }
    proof fn hash_of_equal(self, o: Self) { }
//@ fn <OptionalBlock for *const Block<T, D>>::try_get_block_header
//@ same
//@ sub &(*self).header => vheader(self)
//@ raw

// ---- any value ----
pub trait AnyCast<D: Dealloc>: Sized {
    spec fn ty() -> Ty;
    spec fn ok(self) -> bool;                 // references: the address has 48 bits
    spec fn word(self, u: u64) -> bool;       // u is a word of this value
    spec fn same(self, o: Self) -> bool;
    unsafe fn has_same_type(any_internal: u64) -> (res: bool) ensures res == (ty_of(any_internal) == Self::ty());
    unsafe fn move_to_any_internal(self) -> (res: u64) requires self.ok() ensures ty_of(res) == Self::ty(), self.word(res);
    unsafe fn from_any_internal(any_internal: u64) -> (res: Self) requires ty_of(any_internal) == Self::ty()
        ensures forall|x: Self| x.ok() && #[trigger] x.word(any_internal) ==> x.same(res);
}
//@ file nanvm-lib/src/js/any_cast.rs
//@ fn <AnyCast<D> for T>::has_same_type
//@ head impl<D: Dealloc, T: ValueCast> AnyCast<D> for T where u64: Cast<T>
//@ members
    open spec fn ty() -> Ty { T::vty() }
    open spec fn ok(self) -> bool { true }
    open spec fn word(self, u: u64) -> bool { exists|w: u64| #[trigger] self.rel(w) && u == T::vtag() | w }
    open spec fn same(self, o: T) -> bool { self == o }
//@ start
  proof { T::law(); }
//@ fn <AnyCast<D> for T>::move_to_any_internal
//@ same
//@ start
  proof { T::law(); }
//@ fn <AnyCast<D> for T>::from_any_internal
//@ same
//@ start
  proof { T::law(); }
//@ fn <AnyCast<D> for Ref<T, D>>::has_same_type
//@ head impl<D: Dealloc, T: RefCast<D>> AnyCast<D> for Ref<T, D>
//@ members
    open spec fn ty() -> Ty { T::rty() }
    open spec fn ok(self) -> bool { low(self.value as u64) == self.value as u64 }
    open spec fn word(self, u: u64) -> bool { u == T::rtag() | self.value as u64 }
    open spec fn same(self, o: Self) -> bool { self.value as u64 == o.value as u64 }
//@ start
  proof { T::rlaw(); }
//@ fn <AnyCast<D> for Ref<T, D>>::move_to_any_internal
//@ same
//@ start
  proof { T::rlaw(); ref_words(T::rtag()); }
//@ fn <AnyCast<D> for Ref<T, D>>::from_any_internal
//@ same
//@ start
  proof { T::rlaw(); ref_words(T::rtag()); }
//@ raw
proof fn ref_words(t: u64)
    requires low(t) == 0
    ensures forall|a: u64| #![trigger t | a] low(a) == a ==> (t | a) & 0xFFFF_0000_0000_0000u64 == t && !0xFFFF_0000_0000_0000u64 & (t | a) == a,
{
    assert forall|a: u64| #![trigger t | a] low(a) == a implies (t | a) & 0xFFFF_0000_0000_0000u64 == t && !0xFFFF_0000_0000_0000u64 & (t | a) == a by {
        assert((t | a) & 0xFFFF_0000_0000_0000u64 == t && !0xFFFF_0000_0000_0000u64 & (t | a) == a) by(bit_vector) requires t & 0xFFFF_FFFF_FFFFu64 == 0, a & 0xFFFF_FFFF_FFFFu64 == a;
    }
}
//@ file nanvm-lib/src/js/number.rs
//@ fn <AnyCast<D> for f64>::has_same_type
//@ head impl<D: Dealloc> AnyCast<D> for f64
//@ members
    open spec fn ty() -> Ty { Ty::Number }
    open spec fn ok(self) -> bool { true }
    open spec fn word(self, u: u64) -> bool { if nanw(bits(self)) { nanw(u) } else { u == bits(self) } }
    open spec fn same(self, o: Self) -> bool { bits(self) == bits(o) || nanw(bits(self)) && nanw(bits(o)) }
//@ start
  proof { assert((u & 0xFFF8_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64) == (u >= 0xFFF8_0000_0000_0000u64)) by(bit_vector); }
//@ fn <AnyCast<D> for f64>::move_to_any_internal
//@ same
//@ start
  proof {
    assert(nanw(0x7FF8_0000_0000_0000)) by { assert(0x7FF8_0000_0000_0000u64 & 0x7FF0_0000_0000_0000u64 == 0x7FF0_0000_0000_0000u64 && 0x7FF8_0000_0000_0000u64 & 0x000F_FFFF_FFFF_FFFFu64 != 0) by(bit_vector); }
    let b = bits(self);
    assert(b >= 0xFFF8_0000_0000_0000u64 ==> (b & 0x7FF0_0000_0000_0000u64) == 0x7FF0_0000_0000_0000u64 && (b & 0x000F_FFFF_FFFF_FFFFu64) != 0) by(bit_vector);
  }
//@ fn <AnyCast<D> for f64>::from_any_internal
//@ same
//@ file nanvm-lib/src/js/any_cast.rs
//@ raw
pub trait ToAny<D: Dealloc>: AnyCast<D> {
    fn move_to_any(self) -> (res: Any<D>) requires self.ok() ensures ty_of(res.value.0) == Self::ty(), self.word(res.value.0);
}
//@ fn AnyCast::move_to_any
//@ head impl<D: Dealloc, T: AnyCast<D>> ToAny<D> for T
//@ file nanvm-lib/src/js/type_.rs
//@ item enum Type
//@ raw
pub open spec fn type_is(t: Ty, r: Type) -> bool {
    match t { Ty::Number => r is Number, Ty::Bool => r is Bool, Ty::Null => r is Null, Ty::String => r is String, Ty::Object => r is Object, Ty::Array => r is Array, Ty::Bigint => r is Bigint }
}
pub type Any<D> = OptionalRef<AnyInternal<D>>;
//@ file nanvm-lib/src/js/any.rs
//@ fn Any<D>::u64
  ensures res == self.value.0
//@ fn Any<D>::is
  ensures res == (ty_of(self.value.0) == T::ty())
//@ fn Any<D>::move_from
  requires t.ok()
  ensures ty_of(res.value.0) == T::ty(), t.word(res.value.0)
//@ fn Any<D>::try_move
  ensures res is Ok == (ty_of(self.value.0) == T::ty()),
    res is Ok ==> forall|x: T| x.ok() && #[trigger] x.word(self.value.0) ==> x.same(res->Ok_0)
//@ fn Any<D>::get_type
  ensures type_is(ty_of(self.value.0), res)
//@ start
//@ fn Any<D>::try_ref
  ensures res is Ok == (ty_of(self.value.0) == T::rty()), res is Ok ==> place(res->Ok_0) == low(self.value.0)
//@ start
  proof { T::rlaw(); }
//@ raw

// what a user sees: a value put into an Any is of its type and of no other, and comes back
fn keep<D: Dealloc, T: AnyCast<D>>(t: T) -> (r: Result<T, ()>)
    requires t.ok()
    ensures r is Ok, t.same(r->Ok_0)
{
    Any::<D>::move_from(t).try_move::<T>()
}
fn other<D: Dealloc, T: AnyCast<D>, U: AnyCast<D>>(t: T) -> (r: Result<U, ()>)
    requires t.ok(), T::ty() != U::ty()
    ensures r is Err
{
    Any::<D>::move_from(t).try_move::<U>()
}
fn same_ref<D: Dealloc, T: RefCast<D>>(a: Ref<T, D>) -> (r: bool)
    requires a.ok()
    ensures r
{
    let p = unsafe { a.internal() };
    let ghost w = T::rtag() | (p as u64);
    let v = Any::<D>::move_from(a);
    proof { T::rlaw(); ref_words(T::rtag()); let q = p as u64; assert(!0xFFFF_0000_0000_0000u64 & w == w & 0xFFFF_FFFF_FFFFu64) by(bit_vector); }
    match v.try_ref::<T>() { Ok(b) => { assert(place(b) == p as u64); true } Err(_) => false }
}
