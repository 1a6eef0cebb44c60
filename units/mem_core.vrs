//@ include layout_core.vrs
//@ include bits_core.vrs
//@ include iters.vrs
//@ gsub Self::BLOCK_HEADER_LAYOUT => Self::block_header_layout()
//@ gsub Self::FLEXIBLE_HEADER_LAYOUT => Self::flexible_header_layout()
//@ gsub T::OBJECT_ALIGN => T::object_align()
//@ gsub &self.header => self.header_ptr()
//@ gsub (*self.0) => vblk(self.0)
//@ gsub &(*self).header => vblk(self).header_ptr()
//@ gsub (*(block_header as *mut Block<T, D>)).delete() => vblkh::<T, D>(block_header).delete(Tracked(h),)
//@ gsub T::REF_SUBSET => T::ref_subset()
//@ gsub Number = 0 => Number
//@ gsub Bool = 1 => Bool
//@ gsub String = 2 => String
//@ gsub Null = 3 => Null
//@ gsub Object = 4 => Object
//@ gsub Array = 5 => Array
//@ gsub Bigint = 6 => Bigint
//@ gsub (self.0 & REF_SUBSET_SUPERPOSITION) as _ => vptr(self.0 & REF_SUBSET_SUPERPOSITION)
//@ gsub (v & REF_SUBSET_SUPERPOSITION) as *const Block<T, D> => vptr::<Block<T, D>>(v & REF_SUBSET_SUPERPOSITION)
//@ gsub .value.to_mut_ptr().read() => .value
//@ gsub struct OptionalRef<T: OptionalBlock> => struct OptionalRef<T>
//@ gsub (*self.internal()) => vblk(self.internal())
//@ gsub &mut (*self.0) => vblk(self.0)
//@ gsub #[repr(transparent)] =>
//@ gsub &mut self.header => self.header_ptr()
//@ gsub ref_counter_update(self, => ref_counter_update(self, Tracked(h): Tracked<&mut Heap>,
//@ gsub ref_counter_update(&self, => ref_counter_update(&self, Tracked(h): Tracked<&mut Heap>,
//@ gsub .ref_counter_update( => .ref_counter_update(Tracked(h),
//@ gsub .delete( => .delete(Tracked(h),
//@ gsub .object_size() => .object_size(Tracked(&*h))
//@ gsub .object_drop() => .object_drop(Tracked(h))
//@ gsub val as isize => vdisc(val)
//@ gsub any.try_move() => any.try_move(Tracked(h))
//@ raw
// ---- the heap: what is allocated, and who refers to it (ghost) ----
pub enum St { Fresh, Live, Dying }   // under construction; in use; being deleted
#[verifier::ext_equal]
pub struct Obj { pub hd: bool, pub len: nat, pub items: nat }   // the object's own part is there; items it is to have; items written
#[verifier::ext_equal]
pub struct Blk {
    pub st: St,
    pub cnt: int,          // what the counter in the header says
    pub hdr: bool,         // the header is written
    pub lay: Layout,       // what was asked for
    pub ty: int,           // the type of the object
    pub o: Obj,
}
// a Local: where its counter is, and where its size is
pub struct Lid { pub c: u64, pub s: u64 }
// the memory a block is in, as the system gave it, and the Local whose address is kept there
#[verifier::ext_equal]
pub struct Base { pub at: u64, pub lay: Layout, pub own: Option<Lid> }
pub tracked struct Heap {
    pub ghost blk: Map<u64, Blk>,
    pub ghost base: Map<u64, Base>,
    pub ghost refs: spec_fn(u64) -> int,     // references (OptionalRef) to the block in somebody's hands
    pub ghost muts: spec_fn(u64) -> int,     // MutRefs to the block
    pub ghost kids: spec_fn(u64) -> int,     // references to the block inside of other blocks
    pub ghost lsize: spec_fn(u64) -> int,    // Local::size
    pub ghost lcount: spec_fn(u64) -> int,   // Local::counter
}
pub open spec fn upd(f: spec_fn(u64) -> int, a: u64, d: int) -> spec_fn(u64) -> int { |x: u64| if x == a { f(x) + d } else { f(x) } }
pub open spec fn minus(f: spec_fn(u64) -> int, g: spec_fn(u64) -> int) -> spec_fn(u64) -> int { |x: u64| f(x) - g(x) }
pub open spec fn plus(f: spec_fn(u64) -> int, g: spec_fn(u64) -> int) -> spec_fn(u64) -> int { |x: u64| f(x) + g(x) }
pub open spec fn same_blk(b0: Blk, b1: Blk) -> bool { b1 == Blk { cnt: b1.cnt, ..b0 } }
// ---- the books of Locals ----
pub open spec fn weight(b: Base, l: u64, one: bool) -> int {
    match b.own { Some(o) => if one { if o.c == l { 1 } else { 0 } } else { if o.s == l { b.lay.s as int } else { 0 } }, None => 0 }
}
pub open spec fn total(m: Map<u64, Base>, l: u64, one: bool) -> int
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); weight(m[k], l, one) + total(m.remove(k), l, one) }
}
pub proof fn total_remove(m: Map<u64, Base>, k: u64, l: u64, one: bool)
    requires m.dom().contains(k)
    ensures total(m, l, one) == weight(m[k], l, one) + total(m.remove(k), l, one)
    decreases m.dom().len()
{
    let c = m.dom().choose();
    if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); }
    assert(m.dom().contains(c));
    if c != k {
        assert(m.remove(c).dom() =~= m.dom().remove(c));
        assert(m.remove(k).dom() =~= m.dom().remove(k));
        total_remove(m.remove(c), k, l, one);
        total_remove(m.remove(k), c, l, one);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn total_insert(m: Map<u64, Base>, k: u64, b: Base, l: u64, one: bool)
    requires !m.dom().contains(k)
    ensures total(m.insert(k, b), l, one) == weight(b, l, one) + total(m, l, one)
{
    total_remove(m.insert(k, b), k, l, one);
    assert(m.insert(k, b).remove(k) =~= m);
}
pub proof fn total_pos(m: Map<u64, Base>, l: u64, one: bool)
    ensures total(m, l, one) >= 0
    decreases m.dom().len()
{
    if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(m.remove(k).dom() =~= m.dom().remove(k)); total_pos(m.remove(k), l, one); }
}
impl Heap {
    pub open spec fn has(self, a: u64) -> bool { self.blk.dom().contains(a) }
    pub open spec fn live(self, a: u64) -> bool { self.has(a) && self.blk[a].st is Live }
    pub open spec fn sum(self, a: u64) -> int { (self.refs)(a) + (self.muts)(a) + (self.kids)(a) }
    pub open spec fn cnt_add(self, a: u64, d: int) -> Heap {
        Heap { blk: self.blk.insert(a, Blk { cnt: self.blk[a].cnt + d, ..self.blk[a] }), ..self }
    }
    pub open spec fn ref_add(self, a: Option<u64>, d: int) -> Heap {
        match a { Some(p) => Heap { refs: upd(self.refs, p, d), ..self }, None => self }
    }
    pub open spec fn mut_add(self, a: u64, d: int) -> Heap { Heap { muts: upd(self.muts, a, d), ..self } }
    pub open spec fn base_at(self, a: u64) -> Option<Base> { if self.base.dom().contains(a) { Some(self.base[a]) } else { None } }
    // every block is in memory of its own; the Locals keep their books
    pub open spec fn books(self) -> bool { books_of(self.blk.dom(), self.base, self.lsize, self.lcount) }
    // the counter of a block is one less than the references there are (with d more of them than counted), and only then is it
    // kept; a MutRef is the only reference
    pub open spec fn bal(self, a: u64, d: int) -> bool {
        &&& (self.refs)(a) >= 0 && (self.muts)(a) >= 0 && (self.kids)(a) >= 0
        &&& self.live(a) ==> self.blk[a].hdr && self.sum(a) + d >= 1 && self.blk[a].cnt + 1 == self.sum(a) + d && ((self.muts)(a) > 0 ==> self.sum(a) + d == 1)
        &&& !self.live(a) ==> self.sum(a) == 0 && d == 0
    }
    pub open spec fn wf(self) -> bool { self.books() && forall|a: u64| #[trigger] self.bal(a, 0) }
    pub open spec fn wfo(self, a: u64, d: int) -> bool { self.books() && self.bal(a, d) && forall|b: u64| b != a ==> #[trigger] self.bal(b, 0) }
    // the last reference to a is gone, or there has been none
    pub open spec fn wfx(self, a: u64) -> bool {
        &&& self.books() && self.has(a) && self.blk[a].hdr && self.sum(a) == 0 && (self.refs)(a) >= 0 && (self.muts)(a) >= 0 && (self.kids)(a) >= 0
        &&& forall|b: u64| b != a ==> #[trigger] self.bal(b, 0)
    }
    // References are the same but for those inside of blocks, of which there are not more; no new blocks; of the blocks (but a) those
    // that are left are as they were, and the ones that are made or deleted at the time are left.
    pub open spec fn drops(self, n: Heap, a: u64) -> bool {
        &&& n.refs == self.refs && n.muts == self.muts
        &&& forall|b: u64| #[trigger] (n.kids)(b) <= (self.kids)(b)
        &&& forall|b: u64| #[trigger] n.has(b) ==> self.has(b) && n.base_at(b) == self.base_at(b) && (b != a ==> same_blk(self.blk[b], n.blk[b]))
        &&& forall|b: u64| b != a && #[trigger] self.has(b) && !(self.blk[b].st is Live) ==> n.has(b) && n.blk[b] == self.blk[b]
    }
    // somebody else's work: blocks come and go, those that are made or deleted at the time are left alone
    pub open spec fn works(self, n: Heap) -> bool {
        &&& self.wf() ==> n.wf()
        &&& forall|b: u64| #[trigger] self.has(b) && !(self.blk[b].st is Live) ==> n.has(b) && n.blk[b] == self.blk[b] && n.base_at(b) == self.base_at(b)
    }
}
pub open spec fn books_of(blk: Set<u64>, base: Map<u64, Base>, lsize: spec_fn(u64) -> int, lcount: spec_fn(u64) -> int) -> bool {
    &&& places(blk, base)
    &&& forall|l: u64| #[trigger] lsize(l) == total(base, l, false)
    &&& forall|l: u64| #[trigger] lcount(l) == total(base, l, true)
}
pub open spec fn places(blk: Set<u64>, base: Map<u64, Base>) -> bool {
    &&& forall|a: u64| #[trigger] blk.contains(a) ==> base.dom().contains(a)
    &&& forall|a: u64| #[trigger] base.dom().contains(a) ==> in_base(a, base[a])
    &&& forall|a: u64, b: u64| #[trigger] base.dom().contains(a) && #[trigger] base.dom().contains(b) && a != b ==> apart(base[a], base[b])
}
pub open spec fn in_base(a: u64, b: Base) -> bool { b.at <= a && a < b.at + b.lay.s && b.at + b.lay.s <= 0x1_0000_0000_0000 }
pub open spec fn apart(a: Base, b: Base) -> bool { a.at + a.lay.s <= b.at || b.at + b.lay.s <= a.at }
// There are fewer than isize::MAX references to a block (they would not fit into memory).
#[verifier::external_body]
pub proof fn few(tracked h: &Heap, a: u64) ensures h.has(a) ==> h.blk[a].cnt < isize::MAX {}
pub uninterp spec fn oty<T>() -> int;
// the references that are in a value
pub uninterp spec fn inner<T>(x: T) -> spec_fn(u64) -> int;

//@ file nanvm-lib/src/mem/ref_counter_update.rs
//@ enumx RefCounterUpdate vdisc
  ensures res == delta(v)
//@ raw
pub open spec fn delta(i: RefCounterUpdate) -> int { match i { RefCounterUpdate::AddRef => 1, RefCounterUpdate::Read => 0, RefCounterUpdate::Release => -1 } }
pub trait BlockHeader: Sized {
    spec fn at(&self) -> u64;
    spec fn cval(&self) -> int;
    // Default
    fn vdefault() -> (res: Self) ensures res.cval() == 0;
    proof fn some_size() ensures sz::<Self>() > 0;
    unsafe fn ref_counter_update(&self, Tracked(h): Tracked<&mut Heap>, val: RefCounterUpdate) -> (res: isize)
        requires old(h).has(self.at()), old(h).blk[self.at()].hdr, isize::MIN < old(h).blk[self.at()].cnt < isize::MAX
        ensures res == old(h).blk[self.at()].cnt, *final(h) == old(h).cnt_add(self.at(), delta(val));
}
// Cell<isize> and AtomicIsize in the header of a block
// (at: where it is; v: what a new one, which is nowhere yet, says; Default is 0)
pub struct Cell0 { pub at: Ghost<u64>, pub v: Ghost<int> }
pub struct Atomic0 { pub at: Ghost<u64>, pub v: Ghost<int> }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
impl Cell0 {
    #[verifier::external_body]
    pub fn get(&self, Tracked(h): Tracked<&Heap>) -> (r: isize)
        requires h.has(self.at@), h.blk[self.at@].hdr, isize::MIN <= h.blk[self.at@].cnt <= isize::MAX
        ensures r == h.blk[self.at@].cnt { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, Tracked(h): Tracked<&mut Heap>, v: isize)
        requires old(h).has(self.at@), old(h).blk[self.at@].hdr
        ensures *final(h) == old(h).cnt_add(self.at@, v - old(h).blk[self.at@].cnt) { unimplemented!() }
}
impl Atomic0 {
    #[verifier::external_body]
    pub fn fetch_add(&self, Tracked(h): Tracked<&mut Heap>, v: isize, o: Ordering) -> (r: isize)
        requires old(h).has(self.at@), old(h).blk[self.at@].hdr, isize::MIN <= old(h).blk[self.at@].cnt + v <= isize::MAX
        ensures r == old(h).blk[self.at@].cnt, *final(h) == old(h).cnt_add(self.at@, v as int) { unimplemented!() }
}
//@ file nanvm-lib/src/mem/block_header.rs
//@ fn <BlockHeader for AtomicIsize>::ref_counter_update
//@ head impl BlockHeader for Atomic0
//@ members
    open spec fn at(&self) -> u64 { self.at@ }
    open spec fn cval(&self) -> int { self.v@ }
    #[verifier::external_body]
    proof fn some_size() {}
    fn vdefault() -> (res: Self) { Atomic0 { at: Ghost(0), v: Ghost(0) } }
//@ sub self.fetch_add( => self.fetch_add(Tracked(h),
//@ sub val as isize => vdisc(val)
//@ fn <BlockHeader for Cell<isize>>::ref_counter_update
//@ head impl BlockHeader for Cell0
//@ members
    open spec fn at(&self) -> u64 { self.at@ }
    open spec fn cval(&self) -> int { self.v@ }
    #[verifier::external_body]
    proof fn some_size() {}
    fn vdefault() -> (res: Self) { Cell0 { at: Ghost(0), v: Ghost(0) } }
//@ sub self.get() => self.get(Tracked(&*h))
//@ sub self.set( => self.set(Tracked(h),
//@ sub val as isize => vdisc(val)
//@ raw

// ---- managers, objects, blocks ----
pub trait Dealloc: Sized {
    type BlockHeader: BlockHeader;
    // a block of this kind is backed by what the system gave
    spec fn based(a: u64, lay: Layout, b: Option<Base>) -> bool;
    unsafe fn dealloc(Tracked(h): Tracked<&mut Heap>, ptr: *mut u8, layout: Layout)
        requires old(h).books(), old(h).has(ptr as u64), old(h).blk[ptr as u64].st is Dying, old(h).blk[ptr as u64].lay == layout, layout.ok(),
            !old(h).blk[ptr as u64].o.hd, old(h).blk[ptr as u64].o.items == 0, Self::based(ptr as u64, layout, old(h).base_at(ptr as u64)),
        ensures final(h).books(), final(h).blk == old(h).blk.remove(ptr as u64), final(h).base == old(h).base.remove(ptr as u64),
            final(h).refs == old(h).refs, final(h).muts == old(h).muts, final(h).kids == old(h).kids;
}
pub trait Object: Sized {
    spec fn oalign() -> nat;
    spec fn okb(o: Obj) -> bool;         // all of it is there
    spec fn osz(o: Obj) -> nat;          // its size
    spec fn bat(&self) -> u64;           // the block it is in
    spec fn oat(&self) -> u64;           // its address
    spec fn placed(&self) -> bool;
    fn object_align() -> (res: usize) ensures res == Self::oalign(), is_pow2(res as int), res >= al::<Self>();
    fn object_size(&self, Tracked(h): Tracked<&Heap>) -> (res: usize)
        requires self.placed(), h.has(self.bat()), Self::okb(h.blk[self.bat()].o), Self::osz(h.blk[self.bat()].o) <= h.blk[self.bat()].lay.s
        ensures res == Self::osz(h.blk[self.bat()].o);
    unsafe fn object_drop(&self, Tracked(h): Tracked<&mut Heap>)
        requires self.placed(), old(h).wf(), inb(self.bat(), self.oat(), Self::oalign(), Self::osz(old(h).blk[self.bat()].o), *old(h)), old(h).blk[self.bat()].st is Dying, Self::okb(old(h).blk[self.bat()].o)
        ensures final(h).wf(), old(h).drops(*final(h), self.bat()), final(h).has(self.bat()),
            final(h).blk[self.bat()] == (Blk { o: Obj { hd: false, items: 0, ..old(h).blk[self.bat()].o }, ..old(h).blk[self.bat()] });
}
// the object lies within its block and is aligned
pub open spec fn inb(bat: u64, oat: u64, oal: nat, s: nat, h: Heap) -> bool {
    &&& h.has(bat) && bat <= oat && (oat as int) % (oal as int) == 0 && bat + h.blk[bat].lay.s <= 0x1_0000_0000_0000
    &&& oat + s <= bat + h.blk[bat].lay.s
}
pub struct Block<T: Object, D: Dealloc> { pub header: D::BlockHeader, pub at: Ghost<u64>, pub _0: PhantomData<T> }
// the layout of a block with an object of s bytes
pub open spec fn boff<T: Object, D: Dealloc>() -> int { up(sz::<D::BlockHeader>() as int, T::oalign() as int) }
pub open spec fn blay<T: Object, D: Dealloc>(l: Layout, s: int) -> bool {
    l.s == boff::<T, D>() + s && l.a == (if al::<D::BlockHeader>() > T::oalign() { al::<D::BlockHeader>() as int } else { T::oalign() as int }) && l.ok()
}
// memory for a block with an object of s bytes
pub open spec fn rawblock<T: Object, D: Dealloc>(a: u64, b: Blk, m: Option<Base>, s: int) -> bool {
    &&& s >= 0 && blay::<T, D>(b.lay, s) && D::based(a, b.lay, m) && (a as int) % (b.lay.a as int) == 0 && a + b.lay.s <= 0x1_0000_0000_0000
}
pub open spec fn okblk<T: Object, D: Dealloc>(a: u64, b: Blk, m: Option<Base>) -> bool {
    &&& b.hdr && T::okb(b.o) && b.ty == oty::<T>() && rawblock::<T, D>(a, b, m, T::osz(b.o) as int)
}
pub open spec fn okblock<T: Object, D: Dealloc>(h: Heap, a: u64) -> bool { h.has(a) && okblk::<T, D>(a, h.blk[a], h.base_at(a)) }
#[verifier::external_body]
pub unsafe fn vobj<'a, T: Object, D: Dealloc>(p: *const T, b: &'a Block<T, D>) -> (r: &'a T)
    requires p as u64 == b.at@ + boff::<T, D>()
    ensures r.bat() == b.at@, r.oat() == p as u64, r.placed() { unimplemented!() }
impl<T: Object, D: Dealloc> Block<T, D> {
    pub open spec fn ok(&self) -> bool { self.header.at() == self.at@ }
    // #[repr(transparent)]: the header is at the address of the block
    #[verifier::external_body]
    pub fn header_ptr(&self) -> (r: *const D::BlockHeader) ensures r as u64 == self.at@ { unimplemented!() }
    // header.to_mut_ptr().write(x)
    #[verifier::external_body]
    pub unsafe fn write_header(&self, x: D::BlockHeader, Tracked(h): Tracked<&mut Heap>)
        requires old(h).has(self.at@), old(h).blk[self.at@].st is Fresh, !old(h).blk[self.at@].hdr, old(h).blk[self.at@].lay.s >= sz::<D::BlockHeader>(),
            (self.at@ as int) % (al::<D::BlockHeader>() as int) == 0
        ensures *final(h) == (Heap { blk: old(h).blk.insert(self.at@, Blk { hdr: true, cnt: x.cval(), ..old(h).blk[self.at@] }), ..*old(h) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn ptr(&self) -> (r: *mut u8) ensures r as u64 == self.at@ { unimplemented!() }
}
// &*p, &mut *p: the block at p
#[verifier::external_body]
pub unsafe fn vblk<'a, T: Object, D: Dealloc>(p: *const Block<T, D>) -> (r: &'a Block<T, D>) ensures r.at@ == p as u64, r.ok() { unimplemented!() }
//@ file nanvm-lib/src/mem/block.rs
//@ constfn Block<T, D>::BLOCK_HEADER_LAYOUT block_header_layout
//@ head impl<T: Object, D: Dealloc> Block<T, D>
  ensures res.fits(T::oalign() as int), is_pow2(T::oalign() as int), T::oalign() >= al::<T>()
//@ fn Block::block_layout
//@ sub const fn => fn
  ensures blay::<T, D>(res, object_size as int)
//@ start
  let l = Self::block_header_layout();
  proof { type_facts::<D::BlockHeader>(); pow2_pos(T::oalign() as int); parts(l, T::oalign() as int, 0, 0); }
//@ fn Block::object_mut
//@ sub (&mut self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub &mut T => &T
//@ sub &mut *Self::BLOCK_HEADER_LAYOUT.into_adjacent_mut(&mut self.header) => vobj(Self::block_header_layout().into_adjacent_mut(self.header_ptr()), self)
  requires h.has(self.at@), rawblock::<T, D>(self.at@, h.blk[self.at@], h.base_at(self.at@), h.blk[self.at@].lay.s - boff::<T, D>())
  ensures res.placed(), res.bat() == self.at@, res.oat() == self.at@ + boff::<T, D>(), inb(res.bat(), res.oat(), T::oalign(), (h.blk[self.at@].lay.s - boff::<T, D>()) as nat, *h)
//@ start
  let l = Self::block_header_layout();
  proof { parts(l, T::oalign() as int, 0, self.at@ as int); }
//@ fn Block::object
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub &*Self::BLOCK_HEADER_LAYOUT.to_adjacent(&self.header) => vobj(Self::block_header_layout().to_adjacent(self.header_ptr()), self)
  requires h.has(self.at@), rawblock::<T, D>(self.at@, h.blk[self.at@], h.base_at(self.at@), h.blk[self.at@].lay.s - boff::<T, D>())
  ensures res.placed(), res.bat() == self.at@, res.oat() == self.at@ + boff::<T, D>(), inb(res.bat(), res.oat(), T::oalign(), (h.blk[self.at@].lay.s - boff::<T, D>()) as nat, *h)
//@ start
  let l = Self::block_header_layout();
  proof { parts(l, T::oalign() as int, 0, self.at@ as int); }
//@ fn Block::delete
//@ sub (&mut self) => (&self, Tracked(h): Tracked<&mut Heap>)
//@ sub self.object_mut() => self.object_mut(Tracked(&*h))
//@ sub self as *mut _ as *mut u8 => self.ptr()
//@ sub D::dealloc( => D::dealloc(Tracked(h),
  requires self.ok(), old(h).wfx(self.at@), old(h).live(self.at@), okblock::<T, D>(*old(h), self.at@)
  ensures final(h).wf(), old(h).drops(*final(h), self.at@), !final(h).has(self.at@)
//@ start
  let ghost h0 = *h;
  proof {
    h.blk = h.blk.insert(self.at@, Blk { st: St::Dying, ..h.blk[self.at@] });
    assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(b != self.at@ ==> h0.bal(b, 0)); }
    assert(h.blk.dom() =~= h0.blk.dom());
  }
  let ghost hm = *h;
//@ before D::dealloc(
  let ghost h1 = *h;
  proof { assert(h1.base_at(self.at@) == h0.base_at(self.at@)); }
//@ after D::dealloc(
  proof {
    assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(h1.bal(b, 0)); }
    assert forall|b: u64| #[trigger] h.has(b) implies h0.has(b) && h.base_at(b) == h0.base_at(b) && (b != self.at@ ==> same_blk(h0.blk[b], h.blk[b])) by { assert(h1.has(b)); }
    assert forall|b: u64| b != self.at@ && #[trigger] h0.has(b) && !(h0.blk[b].st is Live) implies h.has(b) && h.blk[b] == h0.blk[b] by { assert(hm.has(b)); assert(h1.has(b)); }
    assert forall|b: u64| #[trigger] (h.kids)(b) <= (h0.kids)(b) by { assert((h1.kids)(b) <= (hm.kids)(b)); }
  assert(h.books());}
//@ raw

// ---- arrays in a block ----
pub struct HPlace<H> { pub bat: Ghost<u64>, pub _0: PhantomData<H> }
pub struct FlexibleArray<I, H> { pub header: HPlace<H>, pub bat: Ghost<u64>, pub oat: Ghost<u64>, pub _0: PhantomData<I> }
// a slice of the items, with places for n of them
pub struct Slots<I> { pub bat: Ghost<u64>, pub k: Ghost<int>, pub n: usize, pub _0: PhantomData<I> }
pub struct Slot<I> { pub bat: Ghost<u64>, pub i: Ghost<int>, pub _0: PhantomData<I> }
pub trait FlexibleArrayHeader: Sized {
    spec fn slen(&self) -> nat;
    fn len(&self) -> (res: usize) ensures res == self.slen();
}
impl<H: FlexibleArrayHeader> HPlace<H> {
    #[verifier::external_body]
    pub fn get(&self, Tracked(h): Tracked<&Heap>) -> (r: &H)
        requires h.has(self.bat@), h.blk[self.bat@].o.hd
        ensures r.slen() == h.blk[self.bat@].o.len { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn write(&self, x: H, Tracked(h): Tracked<&mut Heap>)
        requires old(h).wf(), old(h).has(self.bat@), old(h).blk[self.bat@].st is Fresh, !old(h).blk[self.bat@].o.hd, old(h).blk[self.bat@].o.items == 0
        ensures final(h).wf(), final(h).has(self.bat@), old(h).stays(*final(h), self.bat@),
            final(h).blk[self.bat@] == (Blk { o: Obj { hd: true, len: x.slen(), items: 0 }, ..old(h).blk[self.bat@] }) { unimplemented!() }
}
impl Heap {
    // no other block changes, but references may move into a
    pub open spec fn stays(self, n: Heap, a: u64) -> bool {
        &&& n.base == self.base && n.muts == self.muts && n.lsize == self.lsize && n.lcount == self.lcount
        &&& forall|b: u64| #[trigger] n.sum(b) == self.sum(b)
        &&& forall|b: u64| #[trigger] n.has(b) == self.has(b)
        &&& forall|b: u64| b != a && #[trigger] self.has(b) ==> n.blk[b] == self.blk[b]
    }
}
impl<I, H> FlexibleArray<I, H> {
    pub open spec fn ok(&self) -> bool { self.header.bat@ == self.bat@ }
    pub open spec fn foff() -> int { up(sz::<H>() as int, al::<I>() as int) }
    pub open spec fn fal() -> int { if al::<H>() > al::<I>() { al::<H>() as int } else { al::<I>() as int } }
    pub open spec fn fsz(n: int) -> int { Self::foff() + n * sz::<I>() }
    // #[repr(transparent)]: the header is at the address of the array
    #[verifier::external_body]
    pub fn header_ptr(&self) -> (r: *const H) ensures r as u64 == self.oat@ { unimplemented!() }
}
// from_raw_parts(p, n): there is room for n items at p, and they are those of the array
#[verifier::external_body]
pub unsafe fn vslots<I, H>(p: *const I, n: usize, a: &FlexibleArray<I, H>, Tracked(h): Tracked<&Heap>) -> (r: Slots<I>)
    requires h.has(a.bat@), (p as u64) as int % (al::<I>() as int) == 0, p as u64 == a.oat@ + FlexibleArray::<I, H>::foff(), n == h.blk[a.bat@].o.len,
        (p as u64) + n * sz::<I>() <= a.bat@ + h.blk[a.bat@].lay.s, a.bat@ <= p as u64
    ensures r.bat@ == a.bat@, r.k@ == 0, r.n == n { unimplemented!() }
// a slice of items that are there
#[verifier::external_body]
pub unsafe fn vitems<I, H>(p: *const I, n: usize, a: &FlexibleArray<I, H>, Tracked(h): Tracked<&Heap>) -> (r: Slots<I>)
    requires h.has(a.bat@), (p as u64) as int % (al::<I>() as int) == 0, p as u64 == a.oat@ + FlexibleArray::<I, H>::foff(), n == h.blk[a.bat@].o.len,
        (p as u64) + n * sz::<I>() <= a.bat@ + h.blk[a.bat@].lay.s, a.bat@ <= p as u64, h.blk[a.bat@].o.hd, n == h.blk[a.bat@].o.items
    ensures r.bat@ == a.bat@, r.k@ == 0, r.n == n { unimplemented!() }
// drop_in_place of the items: each of them is dropped, which drops the references in it
#[verifier::external_body]
pub unsafe fn vdrop_items<I>(s: Slots<I>, Tracked(h): Tracked<&mut Heap>)
    requires old(h).wf(), old(h).has(s.bat@), old(h).blk[s.bat@].st is Dying, s.k@ == 0, s.n == old(h).blk[s.bat@].o.items
    ensures final(h).wf(), old(h).drops(*final(h), s.bat@), final(h).has(s.bat@),
        final(h).blk[s.bat@] == (Blk { o: Obj { items: 0, ..old(h).blk[s.bat@].o }, ..old(h).blk[s.bat@] }) { unimplemented!() }
// drop_in_place of the object itself: its own part is dropped
#[verifier::external_body]
pub unsafe fn vdrop_obj<I, H>(s: &FlexibleArray<I, H>, Tracked(h): Tracked<&mut Heap>)
    requires old(h).wf(), old(h).has(s.bat@), old(h).blk[s.bat@].st is Dying, old(h).blk[s.bat@].o.hd, old(h).blk[s.bat@].o.items == 0
    ensures final(h).wf(), old(h).drops(*final(h), s.bat@), final(h).has(s.bat@),
        final(h).blk[s.bat@] == (Blk { o: Obj { hd: false, ..old(h).blk[s.bat@].o }, ..old(h).blk[s.bat@] }) { unimplemented!() }
#[verifier::external_body]
pub unsafe fn vdrop_fixed<T>(s: &Fixed<T>, Tracked(h): Tracked<&mut Heap>)
    requires old(h).wf(), old(h).has(s.bat@), old(h).blk[s.bat@].st is Dying, old(h).blk[s.bat@].o.hd, old(h).blk[s.bat@].o.items == 0
    ensures final(h).wf(), old(h).drops(*final(h), s.bat@), final(h).has(s.bat@),
        final(h).blk[s.bat@] == (Blk { o: Obj { hd: false, ..old(h).blk[s.bat@].o }, ..old(h).blk[s.bat@] }) { unimplemented!() }
pub struct Fixed<T> { pub value: T, pub bat: Ghost<u64>, pub oat: Ghost<u64> }
//@ file nanvm-lib/src/mem/flexible_array/header.rs
//@ fn <FlexibleArrayHeader for usize>::len
//@ members
    open spec fn slen(&self) -> nat { *self as nat }
//@ file nanvm-lib/src/mem/flexible_array/mod.rs
//@ constfn FlexibleArray<I, T>::FLEXIBLE_HEADER_LAYOUT flexible_header_layout
//@ head impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T>
  ensures res.fits(al::<I>() as int), is_pow2(al::<I>() as int)
//@ start
  proof { type_facts::<I>(); type_facts::<T>(); }
//@ fn FlexibleArray::flexible_size
//@ sub const fn => fn
  ensures res == Self::fsz(len as int)
//@ fn FlexibleArray::items
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub &[I] => Slots<I>
//@ sub from_raw_parts( => vitems(
//@ sub self.header.len(), => self.header.get(Tracked(h)).len(), self, Tracked(h)
  requires self.ok(), h.blk[self.bat@].o.hd, h.blk[self.bat@].o.items == h.blk[self.bat@].o.len,
    inb(self.bat@, self.oat@, Self::fal() as nat, Self::fsz(h.blk[self.bat@].o.len as int) as nat, *h)
  ensures res.bat@ == self.bat@, res.k@ == 0, res.n == h.blk[self.bat@].o.len
//@ start
  proof { type_facts::<I>(); type_facts::<T>(); }
  let l = Self::flexible_header_layout();
  proof { parts(l, al::<I>() as int, 0, self.oat@ as int); lemma_mul_nonnegative(h.blk[self.bat@].o.len as int, sz::<I>() as int); }
//@ fn FlexibleArray::items_mut
//@ sub (&mut self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub &mut [I] => Slots<I>
//@ sub from_raw_parts_mut( => vslots(
//@ sub self.header.len(), => self.header.get(Tracked(h)).len(), self, Tracked(h)
  requires self.ok(), h.blk[self.bat@].o.hd,
    inb(self.bat@, self.oat@, Self::fal() as nat, Self::fsz(h.blk[self.bat@].o.len as int) as nat, *h)
  ensures res.bat@ == self.bat@, res.k@ == 0, res.n == h.blk[self.bat@].o.len
//@ start
  proof { type_facts::<I>(); type_facts::<T>(); }
  let l = Self::flexible_header_layout();
  proof { parts(l, al::<I>() as int, 0, self.oat@ as int); lemma_mul_nonnegative(h.blk[self.bat@].o.len as int, sz::<I>() as int); }
//@ raw
// #[repr(transparent)]
#[verifier::external_body]
pub proof fn transparent<I, H>() ensures al::<FlexibleArray<I, H>>() == al::<H>(), sz::<FlexibleArray<I, H>>() == sz::<H>() {}
//@ constfn <Object for FlexibleArray<I, T>>::OBJECT_ALIGN object_align
//@ head impl<T: FlexibleArrayHeader, I> Object for FlexibleArray<I, T>
//@ members
    open spec fn oalign() -> nat { Self::fal() as nat }
    open spec fn okb(o: Obj) -> bool { o.hd && o.items == o.len }
    open spec fn osz(o: Obj) -> nat { Self::fsz(o.len as int) as nat }
    open spec fn bat(&self) -> u64 { self.bat@ }
    open spec fn oat(&self) -> u64 { self.oat@ }
    open spec fn placed(&self) -> bool { self.ok() }
//@ start
  proof { type_facts::<I>(); type_facts::<T>(); transparent::<I, T>(); }
//@ fn <Object for FlexibleArray<I, T>>::object_size
//@ same
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub self.header.len() => self.header.get(Tracked(h)).len()
//@ start
  proof { type_facts::<I>(); type_facts::<T>(); up_facts(sz::<T>() as int, al::<I>() as int); lemma_mul_nonnegative(h.blk[self.bat@].o.len as int, sz::<I>() as int); }
//@ fn <Object for FlexibleArray<I, T>>::object_drop
//@ same
//@ sub (&mut self) => (&self, Tracked(h): Tracked<&mut Heap>)
//@ sub drop_in_place(self.items_mut()) => vdrop_items(self.items_mut(Tracked(&*h)), Tracked(h))
//@ sub drop_in_place(self) => vdrop_obj(self, Tracked(h))
//@ start
  let ghost h0 = *h;
  proof { type_facts::<I>(); type_facts::<T>(); up_facts(sz::<T>() as int, al::<I>() as int); lemma_mul_nonnegative(h.blk[self.bat@].o.len as int, sz::<I>() as int); }
//@ before drop_in_place(self)
  let ghost h1 = *h;
//@ after drop_in_place(self);
  proof { h0.drops_trans(h1, *h, self.bat@); }
//@ raw
impl Heap {
    pub proof fn drops_trans(self, m: Heap, n: Heap, a: u64)
        requires self.drops(m, a), m.drops(n, a), m.has(a)
        ensures self.drops(n, a)
    {
        assert forall|b: u64| #[trigger] (n.kids)(b) <= (self.kids)(b) by { assert((m.kids)(b) <= (self.kids)(b)); }
        assert forall|b: u64| #[trigger] n.has(b) implies self.has(b) && n.base_at(b) == self.base_at(b) && (b != a ==> same_blk(self.blk[b], n.blk[b])) by { assert(m.has(b)); }
        assert forall|b: u64| b != a && #[trigger] self.has(b) && !(self.blk[b].st is Live) implies n.has(b) && n.blk[b] == self.blk[b] by { assert(m.has(b)); }
    }
}
// ---- one value in a block ----
//@ file nanvm-lib/src/mem/object.rs
//@ constfn Object::OBJECT_ALIGN object_align
//@ head impl<T> Object for Fixed<T>
//@ members
    open spec fn oalign() -> nat { al::<Self>() }
    open spec fn okb(o: Obj) -> bool { o.hd && o.items == 0 }
    open spec fn osz(o: Obj) -> nat { sz::<Self>() }
    open spec fn bat(&self) -> u64 { self.bat@ }
    open spec fn oat(&self) -> u64 { self.oat@ }
    open spec fn placed(&self) -> bool { true }
//@ start
  proof { type_facts::<Self>(); }
//@ fn Object::object_size
//@ same
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ fn Object::object_drop
//@ same
//@ sub (&mut self) => (&self, Tracked(h): Tracked<&mut Heap>)
//@ sub drop_in_place(self) => vdrop_fixed(self, Tracked(h))
//@ raw

// ---- new blocks ----
impl Heap {
    // others' blocks (all but a) that are made or deleted at the time are left alone
    pub open spec fn works_but(self, n: Heap, a: u64) -> bool {
        &&& forall|b: u64| b != a && #[trigger] self.has(b) && !(self.blk[b].st is Live) ==> n.has(b) && n.blk[b] == self.blk[b] && n.base_at(b) == self.base_at(b)
    }
    // n is this and a block at p
    pub open spec fn fresh(self, n: Heap, p: u64, l: Layout) -> bool {
        &&& !self.has(p) && p as int % (l.a as int) == 0 && p + l.s <= 0x1_0000_0000_0000
        &&& n.blk == self.blk.insert(p, n.blk[p]) && n.base == self.base.insert(p, n.base[p])
        &&& n.blk[p].st is Fresh && !n.blk[p].hdr && n.blk[p].lay == l && !n.blk[p].o.hd && n.blk[p].o.items == 0
        &&& n.refs == self.refs && n.muts == self.muts && n.kids == self.kids
    }
}
pub trait Manager: Sized + Copy {
    type Dealloc: Dealloc;
    unsafe fn alloc(self, Tracked(h): Tracked<&mut Heap>, layout: Layout) -> (res: *mut u8)
        requires old(h).books(), layout.ok(), layout.s > 0
        ensures final(h).books(), old(h).fresh(*final(h), res as u64, layout), Self::Dealloc::based(res as u64, layout, final(h).base_at(res as u64));
}
pub trait Constructor: Sized {
    type Result: Object;
    spec fn csize(&self) -> nat;
    fn result_size(&self) -> (res: usize) ensures res == self.csize();
    unsafe fn construct(self, p: &Self::Result, Tracked(h): Tracked<&mut Heap>)
        requires p.placed(), old(h).wf(), inb(p.bat(), p.oat(), Self::Result::oalign(), self.csize(), *old(h)), old(h).blk[p.bat()].st is Fresh,
            !old(h).blk[p.bat()].o.hd, old(h).blk[p.bat()].o.items == 0
        ensures final(h).wf(), final(h).has(p.bat()), final(h).blk[p.bat()] == (Blk { o: final(h).blk[p.bat()].o, ..old(h).blk[p.bat()] }),
            final(h).base_at(p.bat()) == old(h).base_at(p.bat()), old(h).works_but(*final(h), p.bat()),
            Self::Result::okb(final(h).blk[p.bat()].o), Self::Result::osz(final(h).blk[p.bat()].o) == self.csize();
}
// An iterator: it may do anything but end up with broken books; what it gives is in our hands.
pub trait VSrc: Sized {
    type Item;
    fn next(&mut self, Tracked(h): Tracked<&mut Heap>) -> (r: Option<Self::Item>)
        requires old(h).wf()
        ensures old(h).works(*final(h)), r is Some ==> mine(*final(h), r->Some_0);
    fn len(&self, Tracked(h): Tracked<&mut Heap>) -> usize requires old(h).wf() ensures old(h).works(*final(h));
}
pub trait VIntoSrc: Sized {
    type IntoIter: VSrc;
    fn into_iter(self, Tracked(h): Tracked<&mut Heap>) -> Self::IntoIter requires old(h).wf() ensures old(h).works(*final(h));
}
pub open spec fn mine<T>(h: Heap, x: T) -> bool { forall|a: u64| 0 <= #[trigger] inner(x)(a) <= (h.refs)(a) }
pub trait VUnwrap<T>: Sized { spec fn some(self) -> Option<T>; fn vunwrap(self) -> (r: T) ensures self.some() == Some(r); }
impl<T> VUnwrap<T> for Option<T> {
    open spec fn some(self) -> Option<T> { self }
    // panics
    fn vunwrap(self) -> (r: T) { match self { Some(x) => x, None => vpanic() } }
}
impl<I> Slot<I> {
    #[verifier::external_body]
    pub unsafe fn write(&self, x: I, Tracked(h): Tracked<&mut Heap>)
        requires old(h).wf(), old(h).has(self.bat@), old(h).blk[self.bat@].st is Fresh, self.i@ == old(h).blk[self.bat@].o.items, self.i@ < old(h).blk[self.bat@].o.len, mine(*old(h), x)
        ensures final(h).wf(), final(h).has(self.bat@), old(h).stays(*final(h), self.bat@),
            final(h).refs == minus(old(h).refs, inner(x)), final(h).kids == plus(old(h).kids, inner(x)),
            final(h).blk[self.bat@] == (Blk { o: Obj { items: old(h).blk[self.bat@].o.items + 1, ..old(h).blk[self.bat@].o }, ..old(h).blk[self.bat@] }) { unimplemented!() }
}
impl<I> VIter for Slots<I> {
    type Item = Slot<I>;
    open spec fn inv(&self) -> bool { true }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { self.n as int }
    open spec fn at(&self, i: int) -> Slot<I> { Slot { bat: self.bat, i: Ghost(self.k@ + i), _0: PhantomData } }
    fn next(&mut self) -> (r: Option<Slot<I>>) {
        if self.n == 0 { None } else {
            let r = Slot { bat: self.bat, i: self.k, _0: PhantomData };
            self.n = self.n - 1;
            self.k = Ghost(self.k@ + 1);
            Some(r)
        }
    }
    proof fn n_nonneg(&self) {}
}
//@ file nanvm-lib/src/mem/flexible_array/constructor.rs
//@ raw
pub struct FlexibleArrayConstructor<H: FlexibleArrayHeader, I: VSrc> { pub header: H, pub items: I }
//@ fn FlexibleArrayConstructor::new
//@ head impl<H: FlexibleArrayHeader, I: VSrc> FlexibleArrayConstructor<H, I>
  ensures res.header == header
//@ fn <Constructor for FlexibleArrayConstructor<H, I>>::result_size
//@ head impl<H: FlexibleArrayHeader, I: VSrc> Constructor for FlexibleArrayConstructor<H, I>
//@ members
    type Result = FlexibleArray<I::Item, H>;
    open spec fn csize(&self) -> nat { FlexibleArray::<I::Item, H>::fsz(self.header.slen() as int) as nat }
//@ start
  proof { type_facts::<I::Item>(); type_facts::<H>(); up_facts(sz::<H>() as int, al::<I::Item>() as int); lemma_mul_nonnegative(self.header.slen() as int, sz::<I::Item>() as int); }
//@ fn <Constructor for FlexibleArrayConstructor<H, I>>::construct
//@ same
//@ sub p: *mut Self::Result => p: &Self::Result, Tracked(h): Tracked<&mut Heap>
//@ sub &mut *p => p
//@ sub v.header.to_mut_ptr().write(self.header) => v.header.write(self.header, Tracked(h))
//@ sub v.items_mut() => v.items_mut(Tracked(&*h))
//@ addarg dst.to_mut_ptr().write => Tracked(h)
//@ sub dst.to_mut_ptr() => dst
//@ sub src.next().unwrap() => src.next(Tracked(h)).vunwrap()
//@ start
  let ghost h0 = *h;
  let ghost n = self.header.slen();
  proof { type_facts::<I::Item>(); type_facts::<H>(); up_facts(sz::<H>() as int, al::<I::Item>() as int); lemma_mul_nonnegative(n as int, sz::<I::Item>() as int); }
//@ loop 0
  h.wf(), h.has(p.bat@), h.blk[p.bat@] == (Blk { o: Obj { hd: true, len: n, items: vk0 as nat }, ..h0.blk[p.bat@] }), h0.blk[p.bat@].st is Fresh,
    h.base_at(p.bat@) == h0.base_at(p.bat@), h0.works_but(*h, p.bat@), vst0.n() == n, vst0.bat@ == p.bat@, vst0.k@ == 0,

// ---- a mutable reference ----
//@ file nanvm-lib/src/mem/mut_ref.rs
//@ gsub MutRef<T: Object, D: Dealloc>(*mut Block<T, D>) => MutRef<T: Object, D: Dealloc>(pub *mut Block<T, D>)
//@ item struct MutRef
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
//@ fn MutRef::new
//@ sub const unsafe fn => unsafe fn
//@ sub (v: *mut Block<T, D>) => (v: *mut Block<T, D>, Tracked(h): Tracked<&mut Heap>)
  requires old(h).wfx(v as u64), okblock::<T, D>(*old(h), v as u64), old(h).blk[v as u64].st is Live || old(h).blk[v as u64].st is Fresh, old(h).blk[v as u64].cnt == 0
  ensures final(h).wf(), res.0 == v, final(h).live(v as u64), okblock::<T, D>(*final(h), v as u64),
    *final(h) == (Heap { blk: old(h).blk.insert(v as u64, Blk { st: St::Live, ..old(h).blk[v as u64] }), muts: upd(old(h).muts, v as u64, 1), ..*old(h) })
//@ start
  let ghost h0 = *h;
  proof {
    h.blk = h.blk.insert(v as u64, Blk { st: St::Live, ..h.blk[v as u64] });
    h.muts = upd(h.muts, v as u64, 1);
    assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(b != v as u64 ==> h0.bal(b, 0)); }
    assert(h.blk.dom() =~= h0.blk.dom());
  }
//@ fn <Drop for MutRef<T, D>>::drop
//@ head impl<T: Object, D: Dealloc> MutRef<T, D>
//@ sub fn drop(&mut self) => fn vdrop(&mut self, Tracked(h): Tracked<&mut Heap>)
//@ sub .object_mut() => .object_mut(Tracked(&*h))
  requires old(h).wf(), (old(h).muts)(old(self).0 as u64) > 0, okblock::<T, D>(*old(h), old(self).0 as u64)
  ensures final(h).wf(), old(h).mut_add(old(self).0 as u64, -1).drops(*final(h), old(self).0 as u64), !final(h).has(old(self).0 as u64)
//@ start
  let ghost a = self.0 as u64;
  let ghost h0 = *h;
  proof {
    assert(h0.bal(a, 0));
    h.muts = upd(h.muts, a, -1);
    assert forall|b: u64| b != a implies #[trigger] h.bal(b, 0) by { assert(h0.bal(b, 0)); }
    assert(h.blk.dom() =~= h0.blk.dom());
  }
//@ fn <Deref for MutRef<T, D>>::deref
//@ head impl<T: Object, D: Dealloc> MutRef<T, D>
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub &Self::Target => &T
//@ sub .object() => .object(Tracked(h))
  requires h.wf(), (h.muts)(self.0 as u64) > 0, okblock::<T, D>(*h, self.0 as u64)
  ensures res.placed(), res.bat() == self.0 as u64, inb(res.bat(), res.oat(), T::oalign(), T::osz(h.blk[res.bat()].o), *h)
//@ fn <DerefMut for MutRef<T, D>>::deref_mut
//@ head impl<T: Object, D: Dealloc> MutRef<T, D>
//@ sub (&mut self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub &mut Self::Target => &T
//@ sub .object_mut() => .object_mut(Tracked(h))
  requires h.wf(), (h.muts)(self.0 as u64) > 0, okblock::<T, D>(*h, self.0 as u64)
  ensures res.placed(), res.bat() == self.0 as u64, inb(res.bat(), res.oat(), T::oalign(), T::osz(h.blk[res.bat()].o), *h)
//@ raw
pub trait ManagerExt: Manager {
    fn new<N: Constructor>(self, new_in_place: N, Tracked(h): Tracked<&mut Heap>) -> (res: MutRef<N::Result, Self::Dealloc>)
        requires old(h).wf()
        ensures final(h).wf(), old(h).works(*final(h)), (final(h).muts)(res.0 as u64) == 1, okblock::<N::Result, Self::Dealloc>(*final(h), res.0 as u64), final(h).live(res.0 as u64),
            final(h).blk[res.0 as u64].lay.s == boff::<N::Result, Self::Dealloc>() + new_in_place.csize();
}
//@ file nanvm-lib/src/mem/manager.rs
//@ fn Manager::new
//@ head impl<M: Manager> ManagerExt for M
//@ sub new_in_place: N) => new_in_place: N, Tracked(h): Tracked<&mut Heap>)
//@ sub new_in_place.result_size(), => new_in_place.result_size(),
//@ sub self.alloc( => self.alloc(Tracked(h),
//@ sub &mut *p => vblk(p)
//@ sub block.header.to_mut_ptr().write(<<Self as Manager>::Dealloc as Dealloc>::BlockHeader::default()) => block.write_header(<<Self as Manager>::Dealloc as Dealloc>::BlockHeader::vdefault(), Tracked(h))
//@ addarg new_in_place.construct => Tracked(h)
//@ sub block.object_mut() => block.object_mut(Tracked(&*h))
//@ sub MutRef::new(p) => MutRef::new(p, Tracked(h))
//@ start
  let ghost h0 = *h;
  let ghost n = new_in_place.csize();
  proof { type_facts::<<M::Dealloc as Dealloc>::BlockHeader>(); <M::Dealloc as Dealloc>::BlockHeader::some_size(); }
  let k = Block::<N::Result, M::Dealloc>::block_header_layout();
  proof { parts(k, N::Result::oalign() as int, 0, 0); up_facts(sz::<<M::Dealloc as Dealloc>::BlockHeader>() as int, N::Result::oalign() as int); }
//@ before let block =
  let ghost a = p as u64;
  proof {
    parts(k, N::Result::oalign() as int, 0, a as int);
    let h1 = *h;
    h.blk = h.blk.insert(a, Blk { ty: oty::<N::Result>(), ..h.blk[a] });
    assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(h0.bal(b, 0)); }
    assert(h.blk.dom() =~= h1.blk.dom());
  }
  let ghost h2 = *h;
//@ before new_in_place.construct(
  let ghost h3 = *h;
  proof {
    assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(h2.bal(b, 0)); }
    assert(h.blk.dom() =~= h2.blk.dom());
  }
//@ after new_in_place.construct(
  let ghost h4 = *h;
  proof {
    assert(h4.bal(a, 0));
    assert forall|b: u64| #[trigger] h0.has(b) && !(h0.blk[b].st is Live) implies h4.has(b) && h4.blk[b] == h0.blk[b] && h4.base_at(b) == h0.base_at(b) by { assert(h3.has(b)); }
  }
//@ raw

// ---- references ----
#[verifier::external_body]
pub unsafe fn vhdr<'a, B: BlockHeader>(p: *const B) -> (r: &'a B) ensures r.at() == p as u64 { &*p }
#[verifier::external_body]
pub fn vmut<T>(p: *const T) -> (r: *mut T) ensures r as u64 == p as u64 { p as *mut T }
#[verifier::external_body]
pub unsafe fn vblkh<'a, T: Object, D: Dealloc>(p: *mut D::BlockHeader) -> (r: &'a Block<T, D>) ensures r.at@ == p as u64, r.ok() { unimplemented!() }
impl Heap {
    pub open spec fn counts(self, a: u64) -> bool { self.has(a) && self.blk[a].hdr && isize::MIN < self.blk[a].cnt < isize::MAX }
}
pub trait OptionalBlock: Copy {
    type BlockHeader: BlockHeader;
    spec fn isref(self) -> bool;
    spec fn at(self) -> u64;
    // the block is there, and it is of the type
    spec fn okr(self, h: Heap) -> bool;
    proof fn okr_frame(self, h: Heap, n: Heap)
        requires self.isref(), self.okr(h), n.has(self.at()), same_blk(h.blk[self.at()], n.blk[self.at()]), n.base_at(self.at()) == h.base_at(self.at())
        ensures self.okr(n);
    fn is_ref(self) -> (res: bool) ensures res == self.isref();
    unsafe fn try_get_block_header(self) -> (res: Option<*const Self::BlockHeader>)
        ensures res is Some == self.isref(), res is Some ==> res->Some_0 as u64 == self.at();
    unsafe fn delete(self, Tracked(h): Tracked<&mut Heap>, block_header: *mut Self::BlockHeader)
        requires self.isref(), block_header as u64 == self.at(), old(h).wfx(self.at()), old(h).live(self.at()), self.okr(*old(h))
        ensures final(h).wf(), old(h).drops(*final(h), self.at()), !final(h).has(self.at());
}
pub open spec fn rat<T: OptionalBlock>(v: T) -> Option<u64> { if v.isref() { Some(v.at()) } else { None } }
pub trait OptionalBlockExt: OptionalBlock {
    unsafe fn ref_counter_update(self, Tracked(h): Tracked<&mut Heap>, i: RefCounterUpdate) -> (res: Option<*mut Self::BlockHeader>)
        requires self.isref() ==> old(h).counts(self.at())
        ensures !self.isref() ==> res is None && *final(h) == *old(h),
            self.isref() ==> *final(h) == old(h).cnt_add(self.at(), delta(i)) && res is Some == (old(h).blk[self.at()].cnt == 0),
            res is Some ==> res->Some_0 as u64 == self.at();
}
//@ file nanvm-lib/src/mem/optional_block.rs
//@ fn OptionalBlock::ref_counter_update
//@ head impl<X: OptionalBlock> OptionalBlockExt for X
//@ guard
//@ sub (*header).ref_counter_update( => vhdr(header).ref_counter_update(Tracked(h),
//@ sub header as *const _ as _ => vmut(header)
//@ fn <OptionalBlock for *const Block<T, D>>::is_ref
//@ head impl<T: Object, D: Dealloc> OptionalBlock for *const Block<T, D>
//@ members
    type BlockHeader = D::BlockHeader;
    open spec fn isref(self) -> bool { true }
    open spec fn at(self) -> u64 { self as u64 }
    open spec fn okr(self, h: Heap) -> bool { okblock::<T, D>(h, self as u64) }
    proof fn okr_frame(self, h: Heap, n: Heap) {}
//@ fn <OptionalBlock for *const Block<T, D>>::try_get_block_header
//@ same
//@ fn <OptionalBlock for *const Block<T, D>>::delete
//@ same
//@ sub delete(self, => delete(self, Tracked(h): Tracked<&mut Heap>,
//@ file nanvm-lib/src/mem/optional_ref.rs
//@ item struct OptionalRef
//@ raw
impl<T: OptionalBlock> OptionalRef<T> {
    // core::mem::forget: it is nobody's any more, and nothing is dropped
    #[verifier::external_body]
    pub fn vforget(self, Tracked(h): Tracked<&mut Heap>) ensures *final(h) == old(h).ref_add(rat(self.value), -1) { unimplemented!() }
}
impl<T: Object, D: Dealloc> MutRef<T, D> {
    #[verifier::external_body]
    pub fn vforget(self, Tracked(h): Tracked<&mut Heap>) ensures *final(h) == old(h).mut_add(self.0 as u64, -1) { unimplemented!() }
}
//@ fn OptionalRef::from_internal
//@ head impl<T: OptionalBlock> OptionalRef<T>
//@ sub const unsafe fn => unsafe fn
//@ sub value: T) => value: T, Tracked(h): Tracked<&mut Heap>)
  ensures res.value == value, *final(h) == old(h).ref_add(rat(value), 1)
//@ start
  proof { match rat(value) { Some(p) => { h.refs = upd(h.refs, p, 1); } None => {} } }
//@ fn OptionalRef::internal
  ensures res == self.value
//@ fn OptionalRef::is_ref
  ensures res == self.value.isref()
//@ fn OptionalRef::move_to_internal
//@ sub (mut self) => (self, Tracked(h): Tracked<&mut Heap>)
//@ sub forget(self) => vself.vforget(Tracked(h))
  ensures res == self.value, *final(h) == old(h).ref_add(rat(self.value), -1)
//@ fn <Clone for OptionalRef<T>>::clone
//@ head impl<T: OptionalBlock> OptionalRef<T>
//@ sub fn clone(&self) => fn vclone(&self, Tracked(h): Tracked<&mut Heap>)
  requires old(h).wf(), self.value.isref() ==> old(h).live(self.value.at()) && (old(h).refs)(self.value.at()) + (old(h).kids)(self.value.at()) > 0
  ensures final(h).wf(), res.value == self.value,
    !self.value.isref() ==> *final(h) == *old(h),
    self.value.isref() ==> *final(h) == old(h).cnt_add(self.value.at(), 1).ref_add(Some(self.value.at()), 1),
//@ start
  let ghost h0 = *h;
  proof { if self.value.isref() { few(h, self.value.at()); assert(h0.bal(self.value.at(), 0)); } }
//@ tail
  proof {
    match rat(self.value) { Some(p) => {
      h.refs = upd(h.refs, p, 1);
      assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(h0.bal(b, 0)); }
      assert(h.blk.dom() =~= h0.blk.dom());
    } None => {} }
  }
//@ fn <Drop for OptionalRef<T>>::drop
//@ head impl<T: OptionalBlock> OptionalRef<T>
//@ sub fn drop(&mut self) => fn vdrop(&mut self, Tracked(h): Tracked<&mut Heap>)
  requires old(h).wf(), old(self).value.isref() ==> (old(h).refs)(old(self).value.at()) > 0 && old(self).value.okr(*old(h))
  ensures final(h).wf(),
    !old(self).value.isref() ==> *final(h) == *old(h),
    old(self).value.isref() ==> ({
      let a = old(self).value.at();
      let h1 = old(h).ref_add(Some(a), -1);
      // freed if it is the last one, and only then
      &&& old(h).sum(a) > 1 ==> *final(h) == h1.cnt_add(a, -1)
      &&& old(h).sum(a) == 1 ==> h1.drops(*final(h), a) && !final(h).has(a)
    })
//@ start
  let ghost h0 = *h;
  let ghost a = self.value.at();
  proof { if self.value.isref() {
    few(h, a); assert(h0.bal(a, 0)); h.refs = upd(h.refs, a, -1);
    assert forall|b: u64| b != a implies #[trigger] h.bal(b, 0) by { assert(h0.bal(b, 0)); }
    assert(h.blk.dom() =~= h0.blk.dom());
  } }
  let ghost h1 = *h;
//@ before self.value.delete(
  proof {
    self.value.okr_frame(h0, *h);
    assert forall|b: u64| b != a implies #[trigger] h.bal(b, 0) by { assert(h1.bal(b, 0)); }
    assert(h.blk.dom() =~= h1.blk.dom());
  }
  let ghost h2 = *h;
//@ after self.value.delete(
  proof {
    assert forall|b: u64| #[trigger] h.has(b) implies h1.has(b) && h.base_at(b) == h1.base_at(b) && (b != a ==> same_blk(h1.blk[b], h.blk[b])) by { assert(h2.has(b)); }
    assert forall|b: u64| b != a && #[trigger] h1.has(b) && !(h1.blk[b].st is Live) implies h.has(b) && h.blk[b] == h1.blk[b] by { assert(h2.has(b)); }
    assert forall|b: u64| #[trigger] (h.kids)(b) <= (h1.kids)(b) by { assert((h.kids)(b) <= (h2.kids)(b)); }
  }
//@ end
  proof {
    if old(self).value.isref() && h0.sum(a) > 1 {
      assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(h0.bal(b, 0)); assert(h1.bal(b, 0) || b == a); }
      assert(h.blk.dom() =~= h0.blk.dom());
    }
  }
//@ raw
pub type Ref<T, D> = OptionalRef<*const Block<T, D>>;
// #[repr(transparent)]: the block is at the address of its header
#[verifier::external_body]
pub fn vblkp<T: Object, D: Dealloc>(p: *mut D::BlockHeader) -> (r: *mut Block<T, D>) ensures r as u64 == p as u64 { unimplemented!() }
//@ file nanvm-lib/src/mem/ref_.rs
//@ fn Ref::try_to_mut_ref
//@ sub try_to_mut_ref(self) => try_to_mut_ref(self, Tracked(h): Tracked<&mut Heap>)
//@ sub forget(self) => self.vforget(Tracked(h))
//@ sub MutRef::new(ptr as _) => MutRef::new(vblkp::<T, D>(ptr), Tracked(h))
  requires old(h).wf(), (old(h).refs)(self.value as u64) > 0, okblock::<T, D>(*old(h), self.value as u64)
  ensures final(h).wf(), final(h).blk == old(h).blk, final(h).base == old(h).base, final(h).kids == old(h).kids,
    // it is the only one
    res is Ok == (old(h).sum(self.value as u64) == 1),
    res is Ok ==> res->Ok_0.0 as u64 == self.value as u64 && final(h).refs == upd(old(h).refs, self.value as u64, -1) && final(h).muts == upd(old(h).muts, self.value as u64, 1),
    res is Err ==> res->Err_0.value == self.value && final(h).refs == old(h).refs && final(h).muts == old(h).muts
//@ start
  let ghost h0 = *h;
  let ghost a = self.value as u64;
  proof { few(h, a); assert(h0.bal(a, 0)); assert(h0.blk.insert(a, Blk { cnt: h0.blk[a].cnt + 0, ..h0.blk[a] }) =~= h0.blk); }
//@ before Ok(MutRef::new(ptr as _))
  let ghost h1 = *h;
  proof {
    assert forall|b: u64| b != a implies #[trigger] h.bal(b, 0) by { assert(h0.bal(b, 0)); }
    assert(h1.blk.insert(a, Blk { st: St::Live, ..h1.blk[a] }) =~= h1.blk);
  }
//@ fn <Deref for Ref<T, D>>::deref
//@ head impl<T: Object, D: Dealloc> Ref<T, D>
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub .object() => .object(Tracked(h))
  requires h.wf(), (h.refs)(self.value as u64) > 0, okblock::<T, D>(*h, self.value as u64)
  ensures res.placed(), res.bat() == self.value as u64, inb(res.bat(), res.oat(), T::oalign(), T::osz(h.blk[res.bat()].o), *h)
//@ file nanvm-lib/src/mem/mut_ref.rs
//@ fn MutRef::to_ref
//@ sub const fn => fn
//@ sub to_ref(self) => to_ref(self, Tracked(h): Tracked<&mut Heap>)
//@ sub Ref::from_internal(self.0) => Ref::<T, D>::from_internal(self.0 as *const Block<T, D>, Tracked(h))
//@ sub forget(self) => self.vforget(Tracked(h))
  requires old(h).wf(), (old(h).muts)(self.0 as u64) > 0, okblock::<T, D>(*old(h), self.0 as u64)
  ensures final(h).wf(), res.value as u64 == self.0 as u64, *final(h) == (Heap { refs: upd(old(h).refs, self.0 as u64, 1), muts: upd(old(h).muts, self.0 as u64, -1), ..*old(h) })
//@ start
  let ghost h0 = *h;
//@ tail
  proof { assert forall|b: u64| #[trigger] h.bal(b, 0) by { assert(h0.bal(b, 0)); } }
//@ raw

// ---- values ----
pub assume_specification[ isize::unsigned_abs ](x: isize) -> (r: usize)
    ensures r == if x < 0 { -x } else { x as int };
pub struct JsBigintHeader { pub len: isize }
pub type JsString = FlexibleArray<u16, usize>;
pub type JsArray<D> = FlexibleArray<Any<D>, usize>;
pub type Property<D> = (OptionalRef<*const Block<JsString, D>>, Any<D>);
pub type JsObject<D> = FlexibleArray<Property<D>, usize>;
pub type JsBigint = FlexibleArray<u64, JsBigintHeader>;
pub type Any<D> = OptionalRef<AnyInternal<D>>;
//@ file nanvm-lib/src/js/js_bigint.rs
//@ fn <FlexibleArrayHeader for JsBigintHeader>::len
//@ members
    open spec fn slen(&self) -> nat { if self.len < 0 { (-self.len) as nat } else { self.len as nat } }
//@ file nanvm-lib/src/js/any_internal.rs
//@ item struct AnyInternal
#[verifier::reject_recursive_types(D)]
//@ raw
pub open spec fn anyok<D: Dealloc>(t: Ty, h: Heap, a: u64) -> bool {
    match t {
        Ty::String => okblock::<JsString, D>(h, a),
        Ty::Object => okblock::<JsObject<D>, D>(h, a),
        Ty::Array => okblock::<JsArray<D>, D>(h, a),
        Ty::Bigint => okblock::<JsBigint, D>(h, a),
        _ => false,
    }
}
//@ include refcast_core.vrs
//@ file nanvm-lib/src/js/any_internal.rs
//@ fn <Clone for AnyInternal<D>>::clone
  ensures res == *self
//@ raw
impl<D: Dealloc> Copy for AnyInternal<D> {}
// p.block(): &mut *(p as *mut Block)
#[verifier::external_body]
pub unsafe fn vhblock<'a, T: Object, D: Dealloc>(p: &'a D::BlockHeader) -> (r: &'a Block<T, D>) ensures r.at@ == p.at(), r.ok() { unimplemented!() }
//@ fn AnyInternal<D>::new
  ensures res.0 == v
//@ fn <OptionalBlock for AnyInternal<D>>::is_ref
//@ head impl<D: Dealloc> OptionalBlock for AnyInternal<D>
//@ members
    type BlockHeader = D::BlockHeader;
    open spec fn isref(self) -> bool { ty_ref(ty_of(self.0)) }
    open spec fn at(self) -> u64 { low(self.0) }
    open spec fn okr(self, h: Heap) -> bool { anyok::<D>(ty_of(self.0), h, low(self.0)) }
    proof fn okr_frame(self, h: Heap, n: Heap) {}
//@ start
  proof { let u = self.0; assert((u & 0xFFFC_0000_0000_0000u64 == 0xFFFC_0000_0000_0000u64) == (u >= 0xFFFC_0000_0000_0000u64)) by(bit_vector); }
//@ fn <OptionalBlock for AnyInternal<D>>::try_get_block_header
//@ same
//@ fn <OptionalBlock for AnyInternal<D>>::delete
//@ same
//@ sub delete(self, => delete(self, Tracked(h): Tracked<&mut Heap>,
//@ sub &mut *block_header => vhdr(block_header)
//@ sub p.block::<JsString, D>() => vhblock::<JsString, D>(p)
//@ sub p.block::<JsObject<D>, D>() => vhblock::<JsObject<D>, D>(p)
//@ sub p.block::<JsArray<D>, D>() => vhblock::<JsArray<D>, D>(p)
//@ sub p.block::<JsBigint, D>() => vhblock::<JsBigint, D>(p)
//@ sub bitset::REF_TYPE_STRING => REF_TYPE_STRING
//@ sub bitset::REF_TYPE_OBJECT => REF_TYPE_OBJECT
//@ sub bitset::REF_TYPE_ARRAY => REF_TYPE_ARRAY
//@ sub bitset::REF_TYPE_BIGINT => REF_TYPE_BIGINT
//@ raw

// ---- any value ----
pub open spec fn wat(t: Ty, u: u64) -> Option<u64> { if ty_ref(t) { Some(low(u)) } else { None } }
pub trait AnyCast<D: Dealloc>: Sized {
    spec fn ty() -> Ty;
    spec fn rat(self) -> Option<u64>;         // the block it refers to
    spec fn tok(self, h: Heap) -> bool;       // the block is of the type, its address has 48 bits
    unsafe fn has_same_type(any_internal: u64) -> (res: bool) ensures res == (ty_of(any_internal) == Self::ty());
    unsafe fn move_to_any_internal(self, Tracked(h): Tracked<&mut Heap>) -> (res: u64)
        requires self.tok(*old(h))
        ensures ty_of(res) == Self::ty(), self.rat() == wat(Self::ty(), res), *final(h) == old(h).ref_add(self.rat(), -1),
            ty_ref(Self::ty()) ==> anyok::<D>(Self::ty(), *final(h), low(res));
    unsafe fn from_any_internal(any_internal: u64, Tracked(h): Tracked<&mut Heap>) -> (res: Self)
        requires ty_of(any_internal) == Self::ty(), ty_ref(Self::ty()) ==> anyok::<D>(Self::ty(), *old(h), low(any_internal))
        ensures res.rat() == wat(Self::ty(), any_internal), *final(h) == old(h).ref_add(res.rat(), 1), res.tok(*final(h));
}
//@ file nanvm-lib/src/js/any_cast.rs
//@ fn <AnyCast<D> for T>::has_same_type
//@ head impl<D: Dealloc, T: ValueCast> AnyCast<D> for T where u64: Cast<T>
//@ members
    open spec fn ty() -> Ty { T::vty() }
    open spec fn rat(self) -> Option<u64> { None }
    open spec fn tok(self, h: Heap) -> bool { true }
//@ start
  proof { T::law(); }
//@ fn <AnyCast<D> for T>::move_to_any_internal
//@ same
//@ sub move_to_any_internal(self) => move_to_any_internal(self, Tracked(h): Tracked<&mut Heap>)
//@ start
  proof { T::law(); }
//@ fn <AnyCast<D> for T>::from_any_internal
//@ same
//@ sub from_any_internal(any_internal: u64) => from_any_internal(any_internal: u64, Tracked(h): Tracked<&mut Heap>)
//@ start
  proof { T::law(); }
//@ fn <AnyCast<D> for Ref<T, D>>::has_same_type
//@ head impl<D: Dealloc, T: RefCast<D>> AnyCast<D> for Ref<T, D>
//@ members
    open spec fn ty() -> Ty { T::rty() }
    open spec fn rat(self) -> Option<u64> { Some(self.value as u64) }
    open spec fn tok(self, h: Heap) -> bool { okblock::<T, D>(h, self.value as u64) && low(self.value as u64) == self.value as u64 }
//@ start
  proof { T::rlaw(); }
//@ fn <AnyCast<D> for Ref<T, D>>::move_to_any_internal
//@ same
//@ sub move_to_any_internal(self) => move_to_any_internal(self, Tracked(h): Tracked<&mut Heap>)
//@ sub self.move_to_internal() => self.move_to_internal(Tracked(h))
//@ start
  proof { T::rlaw(); ref_words(T::rtag()); T::rok(*h, self.value as u64); T::rok(h.ref_add(Some(self.value as u64), -1), self.value as u64); }
//@ fn <AnyCast<D> for Ref<T, D>>::from_any_internal
//@ same
//@ sub from_any_internal(any_internal: u64) => from_any_internal(any_internal: u64, Tracked(h): Tracked<&mut Heap>)
//@ sub Self::from_internal(T::REF_SUBSET.subset_value_to_typed_value(any_internal)) => Self::from_internal(T::ref_subset().subset_value_to_typed_value(any_internal), Tracked(h))
//@ start
  proof {
    T::rlaw(); ref_words(T::rtag()); T::rok(*h, low(any_internal)); T::rok(h.ref_add(Some(low(any_internal)), 1), low(any_internal)); low_low(any_internal);
  }
//@ raw
proof fn ref_words(t: u64)
    requires low(t) == 0
    ensures forall|a: u64| #![trigger t | a] low(a) == a ==> (t | a) & 0xFFFF_0000_0000_0000u64 == t && !0xFFFF_0000_0000_0000u64 & (t | a) == a && low(t | a) == a,
{
    assert forall|a: u64| #![trigger t | a] low(a) == a implies (t | a) & 0xFFFF_0000_0000_0000u64 == t && !0xFFFF_0000_0000_0000u64 & (t | a) == a && low(t | a) == a by {
        assert((t | a) & 0xFFFF_0000_0000_0000u64 == t && !0xFFFF_0000_0000_0000u64 & (t | a) == a && (t | a) & 0xFFFF_FFFF_FFFFu64 == a) by(bit_vector) requires t & 0xFFFF_FFFF_FFFFu64 == 0, a & 0xFFFF_FFFF_FFFFu64 == a;
    }
}
proof fn low_low(u: u64) ensures low(low(u)) == low(u), !0xFFFF_0000_0000_0000u64 & u == low(u)
{
    assert(!0xFFFF_0000_0000_0000u64 & u == u & 0xFFFF_FFFF_FFFFu64 && (u & 0xFFFF_FFFF_FFFFu64) & 0xFFFF_FFFF_FFFFu64 == u & 0xFFFF_FFFF_FFFFu64) by(bit_vector);
}
//@ file nanvm-lib/src/js/number.rs
//@ fn <AnyCast<D> for f64>::has_same_type
//@ head impl<D: Dealloc> AnyCast<D> for f64
//@ members
    open spec fn ty() -> Ty { Ty::Number }
    open spec fn rat(self) -> Option<u64> { None }
    open spec fn tok(self, h: Heap) -> bool { true }
//@ start
  proof { assert((u & 0xFFF8_0000_0000_0000u64 == 0xFFF8_0000_0000_0000u64) == (u >= 0xFFF8_0000_0000_0000u64)) by(bit_vector); }
//@ fn <AnyCast<D> for f64>::move_to_any_internal
//@ same
//@ sub move_to_any_internal(self) => move_to_any_internal(self, Tracked(h): Tracked<&mut Heap>)
//@ start
  proof {
    let b = bits(self);
    assert(b >= 0xFFF8_0000_0000_0000u64 ==> (b & 0x7FF0_0000_0000_0000u64) == 0x7FF0_0000_0000_0000u64 && (b & 0x000F_FFFF_FFFF_FFFFu64) != 0) by(bit_vector);
  }
//@ fn <AnyCast<D> for f64>::from_any_internal
//@ same
//@ sub from_any_internal(u: u64) => from_any_internal(u: u64, Tracked(h): Tracked<&mut Heap>)
//@ file nanvm-lib/src/js/any_cast.rs
//@ raw
pub trait ToAny<D: Dealloc>: AnyCast<D> {
    fn move_to_any(self, Tracked(h): Tracked<&mut Heap>) -> (res: Any<D>)
        requires self.tok(*old(h))
        ensures *final(h) == *old(h), ty_of(res.value.0) == Self::ty(), self.rat() == wat(Self::ty(), res.value.0), ty_ref(Self::ty()) ==> res.value.okr(*final(h));
}
//@ fn AnyCast::move_to_any
//@ head impl<D: Dealloc, T: AnyCast<D>> ToAny<D> for T
//@ sub move_to_any(self) => move_to_any(self, Tracked(h): Tracked<&mut Heap>)
//@ sub Any::from_internal(AnyInternal::new(self.move_to_any_internal())) => Any::from_internal(AnyInternal::new(self.move_to_any_internal(Tracked(h))), Tracked(h))
//@ start
  let ghost h0 = *h;
  proof { match self.rat() { Some(a) => { assert(upd(upd(h0.refs, a, -1), a, 1) =~= h0.refs); } None => {} } }
//@ file nanvm-lib/src/js/type_.rs
//@ item enum Type
//@ raw
pub open spec fn type_is(t: Ty, r: Type) -> bool {
    match t { Ty::Number => r is Number, Ty::Bool => r is Bool, Ty::Null => r is Null, Ty::String => r is String, Ty::Object => r is Object, Ty::Array => r is Array, Ty::Bigint => r is Bigint }
}
//@ file nanvm-lib/src/js/any.rs
//@ fn Any<D>::u64
  ensures res == self.value.0
//@ fn Any<D>::is
  ensures res == (ty_of(self.value.0) == T::ty())
//@ fn Any<D>::move_from
//@ sub (t: T) => (t: T, Tracked(h): Tracked<&mut Heap>)
//@ sub t.move_to_any() => t.move_to_any(Tracked(h))
  requires t.tok(*old(h))
  ensures *final(h) == *old(h), ty_of(res.value.0) == T::ty(), t.rat() == wat(T::ty(), res.value.0), ty_ref(T::ty()) ==> res.value.okr(*final(h))
//@ fn Any<D>::try_move
//@ sub try_move<T: AnyCast<D>>(self) => try_move<T: AnyCast<D>>(self, Tracked(h): Tracked<&mut Heap>)
//@ addarg T::from_any_internal => Tracked(h)
//@ sub self.move_to_internal() => self.move_to_internal(Tracked(h))
  requires self.value.isref() ==> self.value.okr(*old(h))
  ensures *final(h) == *old(h), res is Ok == (ty_of(self.value.0) == T::ty()), res is Ok ==> res->Ok_0.rat() == rat(self.value) && res->Ok_0.tok(*final(h))
//@ start
  let ghost h0 = *h;
  proof { match rat(self.value) { Some(a) => { assert(upd(upd(h0.refs, a, -1), a, 1) =~= h0.refs); } None => {} } }
//@ fn Any<D>::get_type
  ensures type_is(ty_of(self.value.0), res)
//@ start
//@ fn Any<D>::try_ref
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub &*p => vblk(p)
  requires h.wf(), self.value.isref() ==> self.value.okr(*h) && (h.refs)(low(self.value.0)) > 0
  ensures res is Ok == (ty_of(self.value.0) == T::rty()), res is Ok ==> res->Ok_0.at@ == low(self.value.0) && okblock::<T, D>(*h, res->Ok_0.at@)
//@ start
  proof { T::rlaw(); T::rok(*h, low(self.value.0)); low_low(self.value.0); }
//@ raw
pub type JsStringRef<D> = Ref<JsString, D>;
pub type JsArrayRef<D> = Ref<JsArray<D>, D>;
pub type JsObjectRef<D> = Ref<JsObject<D>, D>;
pub type JsBigintRef<D> = Ref<JsBigint, D>;
//@ file nanvm-lib/src/js/visitor.rs
//@ item enum Visitor
#[verifier::reject_recursive_types(T)]
//@ raw
impl<D: Dealloc> Visitor<D> {
    pub open spec fn is_of(self, t: Ty) -> bool {
        match t { Ty::Number => self is Number, Ty::Bool => self is Bool, Ty::Null => self is Null, Ty::String => self is String, Ty::Object => self is Object, Ty::Array => self is Array, Ty::Bigint => self is Bigint }
    }
    // the block it refers to
    pub open spec fn vrat(self) -> Option<u64> {
        match self { Visitor::String(r) => Some(r.value as u64), Visitor::Object(r) => Some(r.value as u64), Visitor::Array(r) => Some(r.value as u64), Visitor::Bigint(r) => Some(r.value as u64), _ => None }
    }
    pub open spec fn vok(self, h: Heap) -> bool {
        match self { Visitor::String(r) => okblock::<JsString, D>(h, r.value as u64), Visitor::Object(r) => okblock::<JsObject<D>, D>(h, r.value as u64), Visitor::Array(r) => okblock::<JsArray<D>, D>(h, r.value as u64), Visitor::Bigint(r) => okblock::<JsBigint, D>(h, r.value as u64), _ => true }
    }
}
//@ fn to_visitor
//@ sub any: Any<T>) => any: Any<T>, Tracked(h): Tracked<&mut Heap>)
  requires any.value.isref() ==> any.value.okr(*old(h))
  ensures *final(h) == *old(h), res.is_of(ty_of(any.value.0)), res.vrat() == rat(any.value), res.vok(*final(h))
//@ raw

// ---- new values ----
impl Heap {
    pub proof fn works_trans(self, m: Heap, n: Heap)
        requires self.works(m), m.works(n)
        ensures self.works(n)
    {
        assert forall|b: u64| #[trigger] self.has(b) && !(self.blk[b].st is Live) implies n.has(b) && n.blk[b] == self.blk[b] && n.base_at(b) == self.base_at(b) by { assert(m.has(b)); }
    }
}
proof fn low48(a: u64) requires a < 0x1_0000_0000_0000 ensures low(a) == a { assert(a & 0xFFFF_FFFF_FFFFu64 == a) by(bit_vector) requires a < 0x1_0000_0000_0000u64; }
// a new block, ours alone
pub open spec fn newref<T: Object, D: Dealloc>(h: Heap, n: Heap, r: MutRef<T, D>) -> bool {
    let a = r.0 as u64;
    n.wf() && h.works(n) && (n.muts)(a) == 1 && okblock::<T, D>(n, a) && n.live(a)
}
pub open spec fn newany<D: Dealloc>(h: Heap, n: Heap, r: Any<D>, t: Ty) -> bool {
    n.wf() && h.works(n) && ty_of(r.value.0) == t && r.value.okr(n) && (n.refs)(low(r.value.0)) > 0
}
pub trait ConstructorExt: FlexibleArrayHeader {
    fn constructor<I: VSrc>(self, items: I) -> (res: FlexibleArrayConstructor<Self, I>) ensures res.header == self;
}
//@ file nanvm-lib/src/mem/flexible_array/header.rs
//@ fn FlexibleArrayHeader::constructor
//@ head impl<X: FlexibleArrayHeader> ConstructorExt for X
//@ sub constructor<I: Iterator> => constructor<I: VSrc>
//@ file nanvm-lib/src/mem/flexible_array/constructor.rs
//@ fn <From<I> for FlexibleArrayConstructor<usize, I>>::from
//@ head impl<I: VSrc> FlexibleArrayConstructor<usize, I>
//@ sub from(items: I) => from(items: I, Tracked(h): Tracked<&mut Heap>)
//@ sub items.len() => items.len(Tracked(h))
  requires old(h).wf()
  ensures old(h).works(*final(h))
//@ raw
pub trait ManagerNew: ManagerExt {
    fn fixed_new<T>(self, value: T, Tracked(h): Tracked<&mut Heap>) -> (res: MutRef<Fixed<T>, Self::Dealloc>)
        requires old(h).wf() ensures newref(*old(h), *final(h), res);
    fn flexible_array_new<I, E: VSrc<Item = I>, J: VIntoSrc<IntoIter = E>>(self, items: J, Tracked(h): Tracked<&mut Heap>) -> (res: MutRef<FlexibleArray<I, usize>, Self::Dealloc>)
        requires old(h).wf() ensures newref(*old(h), *final(h), res);
}
impl<T> Fixed<T> {
    // Fixed(value)
    #[verifier::external_body]
    pub fn make(value: T) -> (r: Self) ensures r.value == value { unimplemented!() }
    // p.write(self)
    #[verifier::external_body]
    pub unsafe fn vwrite(&self, x: Self, Tracked(h): Tracked<&mut Heap>)
        requires old(h).wf(), old(h).has(self.bat@), old(h).blk[self.bat@].st is Fresh, !old(h).blk[self.bat@].o.hd,
            (self.oat@ as int) % (al::<Self>() as int) == 0, self.bat@ <= self.oat@, self.oat@ + sz::<Self>() <= self.bat@ + old(h).blk[self.bat@].lay.s
        ensures final(h).wf(), final(h).has(self.bat@), old(h).stays(*final(h), self.bat@),
            final(h).blk[self.bat@] == (Blk { o: Obj { hd: true, ..old(h).blk[self.bat@].o }, ..old(h).blk[self.bat@] }) { unimplemented!() }
}
//@ file nanvm-lib/src/mem/object.rs
//@ fn Object::object_size
//@ head impl<T> Fixed<T>
//@ sub fn object_size => fn fixed_size
  ensures res == sz::<Self>()
//@ file nanvm-lib/src/mem/fixed.rs
//@ fn <Constructor for Fixed<T>>::result_size
//@ head impl<T> Constructor for Fixed<T>
//@ members
    type Result = Fixed<T>;
    open spec fn csize(&self) -> nat { sz::<Self>() }
//@ sub Self::Result::object_size(self) => self.fixed_size()
//@ fn <Constructor for Fixed<T>>::construct
//@ same
//@ sub p: *mut Self::Result => p: &Self::Result, Tracked(h): Tracked<&mut Heap>
//@ sub p.write(self) => p.vwrite(self, Tracked(h))
//@ start
  proof { type_facts::<Fixed<T>>(); }
//@ file nanvm-lib/src/mem/manager.rs
//@ fn Manager::fixed_new
//@ head impl<M: Manager> ManagerNew for M
//@ sub value: T) => value: T, Tracked(h): Tracked<&mut Heap>)
//@ sub self.new(Fixed(value)) => self.new(Fixed::make(value), Tracked(h))
//@ fn Manager::flexible_array_new
//@ same
//@ sub <I, E: ExactSizeIterator<Item = I>>(self, items: impl IntoIterator<IntoIter = E>,) => <I, E: VSrc<Item = I>, J: VIntoSrc<IntoIter = E>>(self, items: J, Tracked(h): Tracked<&mut Heap>)
//@ sub self.new(FlexibleArrayConstructor::from(items.into_iter())) => { let c = FlexibleArrayConstructor::from(items.into_iter(Tracked(h)), Tracked(h)); let ghost h1 = *h; let r = self.new(c, Tracked(h)); proof { h0.works_trans(h1, *h); } r }
//@ start
  let ghost h0 = *h;
//@ file nanvm-lib/src/js/js_string.rs
//@ fn new_string
//@ sub <M: Manager, I: ExactSizeIterator<Item = u16>>(m: M, i: impl IntoIterator<IntoIter = I>,) => <M: Manager, I: VSrc<Item = u16>, J: VIntoSrc<IntoIter = I>>(m: M, i: J, Tracked(h): Tracked<&mut Heap>)
//@ sub JsStringMutRef<M::Dealloc> => MutRef<JsString, M::Dealloc>
//@ sub m.flexible_array_new(i) => m.flexible_array_new(i, Tracked(h))
  requires old(h).wf()
  ensures newref(*old(h), *final(h), res)
//@ file nanvm-lib/src/js/js_array.rs
//@ fn new_array
//@ sub <M: Manager, I: ExactSizeIterator<Item = Any<M::Dealloc>>>(m: M, i: impl IntoIterator<IntoIter = I>,) => <M: Manager, I: VSrc<Item = Any<M::Dealloc>>, J: VIntoSrc<IntoIter = I>>(m: M, i: J, Tracked(h): Tracked<&mut Heap>)
//@ sub JsArrayMutRef<M::Dealloc> => MutRef<JsArray<M::Dealloc>, M::Dealloc>
//@ sub m.flexible_array_new(i) => m.flexible_array_new(i, Tracked(h))
  requires old(h).wf()
  ensures newref(*old(h), *final(h), res)
//@ file nanvm-lib/src/js/js_object.rs
//@ fn new_object
//@ sub <M: Manager, I: ExactSizeIterator<Item = Property<M::Dealloc>>>(m: M, i: impl IntoIterator<IntoIter = I>,) => <M: Manager, I: VSrc<Item = Property<M::Dealloc>>, J: VIntoSrc<IntoIter = I>>(m: M, i: J, Tracked(h): Tracked<&mut Heap>)
//@ sub JsObjectMutRef<M::Dealloc> => MutRef<JsObject<M::Dealloc>, M::Dealloc>
//@ sub m.flexible_array_new(i) => m.flexible_array_new(i, Tracked(h))
  requires old(h).wf()
  ensures newref(*old(h), *final(h), res)
//@ file nanvm-lib/src/js/js_bigint.rs
//@ enumx Sign vsign
  ensures res == if v is Positive { 1int } else { -1 }
//@ raw
// n as isize
#[verifier::external_body]
pub fn vsigned(n: usize) -> (r: isize) ensures n <= isize::MAX ==> r == n { n as isize }
// the product of two numbers, or a panic, or (in a release build) the product modulo 2^64
#[verifier::external_body]
pub fn vmul(a: isize, b: isize) -> (r: isize) ensures isize::MIN <= a * b <= isize::MAX ==> r == a * b { a.wrapping_mul(b) }
//@ fn new_bigint
//@ sub <M: Manager, I: ExactSizeIterator<Item = u64>>(m: M, sign: Sign, i: impl IntoIterator<IntoIter = I>,) => <M: Manager, I: VSrc<Item = u64>, J: VIntoSrc<IntoIter = I>>(m: M, sign: Sign, i: J, Tracked(h): Tracked<&mut Heap>)
//@ sub JsBigintMutRef<M::Dealloc> => MutRef<JsBigint, M::Dealloc>
//@ sub i.into_iter() => i.into_iter(Tracked(h))
//@ sub (items.len() as isize) * sign as isize => vmul(vsigned(items.len(Tracked(h))), vsign(sign))
//@ sub m.new( => ManagerExt::new(m,
//@ sub items,)) => items), Tracked(h))
  requires old(h).wf()
  ensures newref(*old(h), *final(h), res)
//@ start
  let ghost h0 = *h;
//@ raw

// ---- any value, made ----
proof fn mut_low<T: Object, D: Dealloc>(h: Heap, a: u64)
    requires h.wf(), (h.muts)(a) > 0, okblock::<T, D>(h, a)
    ensures low(a) == a, a < 0x1_0000_0000_0000
{
    assert(h.base.dom().contains(a));
    assert(in_base(a, h.base[a]));
    low48(a);
}
proof fn to_ref_works<T: Object, D: Dealloc>(h0: Heap, h1: Heap, h2: Heap, a: u64)
    requires h0.wf(), h0.works(h1), h1.wf(), h2.wf(), (h1.muts)(a) > 0, h2 == (Heap { refs: upd(h1.refs, a, 1), muts: upd(h1.muts, a, -1), ..h1 })
    ensures h0.works(h2), (h2.refs)(a) > 0
{
    assert(h1.bal(a, 0));
    assert forall|b: u64| #[trigger] h0.has(b) && !(h0.blk[b].st is Live) implies h2.has(b) && h2.blk[b] == h0.blk[b] && h2.base_at(b) == h0.base_at(b) by { assert(h1.has(b)); }
}
pub trait New: Manager {
    fn new_js_array<I: VSrc<Item = Any<Self::Dealloc>>, J: VIntoSrc<IntoIter = I>>(self, i: J, Tracked(h): Tracked<&mut Heap>) -> (res: Any<Self::Dealloc>)
        requires old(h).wf() ensures newany(*old(h), *final(h), res, Ty::Array);
    fn new_js_string<I: VSrc<Item = u16>, J: VIntoSrc<IntoIter = I>>(self, i: J, Tracked(h): Tracked<&mut Heap>) -> (res: Any<Self::Dealloc>)
        requires old(h).wf() ensures newany(*old(h), *final(h), res, Ty::String);
    fn new_js_object<I: VSrc<Item = Property<Self::Dealloc>>, J: VIntoSrc<IntoIter = I>>(self, i: J, Tracked(h): Tracked<&mut Heap>) -> (res: Any<Self::Dealloc>)
        requires old(h).wf() ensures newany(*old(h), *final(h), res, Ty::Object);
}
//@ file nanvm-lib/src/js/new.rs
//@ fn New::new_js_array
//@ head impl<M: Manager> New for M
//@ sub new_js_array(self, i: impl IntoIterator<IntoIter = impl ExactSizeIterator<Item = Any<Self::Dealloc>>>,) => new_js_array<I: VSrc<Item = Any<Self::Dealloc>>, J: VIntoSrc<IntoIter = I>>(self, i: J, Tracked(h): Tracked<&mut Heap>)
//@ sub new_array(self, i).to_ref().move_to_any() => { let ghost h0 = *h; let r = new_array(self, i, Tracked(h)); let ghost h1 = *h; proof { mut_low::<JsArray<M::Dealloc>, M::Dealloc>(h1, r.0 as u64); } let r = r.to_ref(Tracked(h)); proof { to_ref_works::<JsArray<M::Dealloc>, M::Dealloc>(h0, h1, *h, r.value as u64); } let ghost a = r.value as u64; let v = r.move_to_any(Tracked(h)); assert(rat(v.value) == Some(a)); v }
//@ fn New::new_js_string
//@ same
//@ sub new_js_string(self, s: impl IntoIterator<IntoIter = impl ExactSizeIterator<Item = u16>>,) => new_js_string<I: VSrc<Item = u16>, J: VIntoSrc<IntoIter = I>>(self, s: J, Tracked(h): Tracked<&mut Heap>)
//@ sub new_string(self, s).to_ref().move_to_any() => { let ghost h0 = *h; let r = new_string(self, s, Tracked(h)); let ghost h1 = *h; proof { mut_low::<JsString, M::Dealloc>(h1, r.0 as u64); } let r = r.to_ref(Tracked(h)); proof { to_ref_works::<JsString, M::Dealloc>(h0, h1, *h, r.value as u64); } let ghost a = r.value as u64; let v = r.move_to_any(Tracked(h)); assert(rat(v.value) == Some(a)); v }
//@ fn New::new_js_object
//@ same
//@ sub new_js_object(self, i: impl IntoIterator<IntoIter = impl ExactSizeIterator<Item = (JsStringRef<Self::Dealloc>, Any<Self::Dealloc>)>,>,) => new_js_object<I: VSrc<Item = Property<Self::Dealloc>>, J: VIntoSrc<IntoIter = I>>(self, i: J, Tracked(h): Tracked<&mut Heap>)
//@ sub new_object(self, i).to_ref().move_to_any() => { let ghost h0 = *h; let r = new_object(self, i, Tracked(h)); let ghost h1 = *h; proof { mut_low::<JsObject<M::Dealloc>, M::Dealloc>(h1, r.0 as u64); } let r = r.to_ref(Tracked(h)); proof { to_ref_works::<JsObject<M::Dealloc>, M::Dealloc>(h0, h1, *h, r.value as u64); } let ghost a = r.value as u64; let v = r.move_to_any(Tracked(h)); assert(rat(v.value) == Some(a)); v }
//@ raw

// ---- the system ----
proof fn last_base(m: Map<u64, Base>) -> (k: u64)
    requires m.dom().len() > 0
    ensures m.dom().contains(k), forall|b: u64| #[trigger] m.dom().contains(b) ==> m[b].at <= m[k].at
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    assert(m.remove(c).dom() =~= m.dom().remove(c));
    if m.remove(c).dom().len() == 0 {
        assert forall|b: u64| #[trigger] m.dom().contains(b) implies b == c by { if b != c { assert(m.remove(c).dom().contains(b)); } }
        c
    } else {
        let k = last_base(m.remove(c));
        assert forall|b: u64| #[trigger] m.dom().contains(b) implies b == c || m[b].at <= m[k].at by { if b != c { assert(m.remove(c).dom().contains(b)); } }
        if m[k].at <= m[c].at { c } else { k }
    }
}
// what is apart and below n is no more than n
proof fn total_bound(m: Map<u64, Base>, n: int, l: u64, one: bool)
    requires n >= 0, forall|a: u64| #[trigger] m.dom().contains(a) ==> m[a].lay.s > 0 && m[a].at + m[a].lay.s <= n,
        forall|a: u64, b: u64| #[trigger] m.dom().contains(a) && #[trigger] m.dom().contains(b) && a != b ==> apart(m[a], m[b])
    ensures 0 <= total(m, l, one) <= n
    decreases m.dom().len()
{
    if m.dom().len() != 0 {
        let k = last_base(m);
        total_remove(m, k, l, one);
        assert(m.remove(k).dom() =~= m.dom().remove(k));
        assert forall|a: u64| #[trigger] m.remove(k).dom().contains(a) implies m[a].lay.s > 0 && m[a].at + m[a].lay.s <= m[k].at by { assert(m.dom().contains(a)); assert(apart(m[a], m[k])); }
        total_bound(m.remove(k), m[k].at as int, l, one);
    }
}
impl Heap {
    pub proof fn books_bound(self, l: u64)
        requires self.books()
        ensures 0 <= (self.lsize)(l) <= 0x1_0000_0000_0000, 0 <= (self.lcount)(l) <= 0x1_0000_0000_0000
    {
        total_bound(self.base, 0x1_0000_0000_0000, l, false);
        total_bound(self.base, 0x1_0000_0000_0000, l, true);
    }
    // memory from the system, as it is
    pub open spec fn gave(self, n: Heap, p: u64, l: Layout) -> bool {
        &&& self.fresh(n, p, l) && n.base_at(p) == Some(Base { at: p, lay: l, own: None }) && !self.base.dom().contains(p)
        &&& n.lsize == self.lsize && n.lcount == self.lcount
        &&& forall|b: u64| #[trigger] self.base.dom().contains(b) ==> apart(self.base[b], n.base[p])
    }
}
#[verifier::external_body]
pub fn vnull<T>(p: *mut T) -> (r: bool) ensures r == (p as u64 == 0) { p.is_null() }
// std::alloc::alloc: null, or memory that nobody has, aligned; addresses have 48 bits
#[verifier::external_body]
pub unsafe fn sys_alloc(Tracked(h): Tracked<&mut Heap>, l: Layout) -> (p: *mut u8)
    requires l.ok(), l.s > 0
    ensures p as u64 == 0 ==> *final(h) == *old(h), p as u64 != 0 ==> old(h).gave(*final(h), p as u64, l) { unimplemented!() }
// std::alloc::dealloc: memory that the system gave, with the same layout; nothing is left in it
#[verifier::external_body]
pub unsafe fn sys_dealloc(Tracked(h): Tracked<&mut Heap>, p: *mut u8, l: Layout)
    requires old(h).has(p as u64), old(h).blk[p as u64].st is Dying, !old(h).blk[p as u64].o.hd, old(h).blk[p as u64].o.items == 0,
        old(h).base_at(p as u64) == Some(Base { at: p as u64, lay: l, own: None })
    ensures *final(h) == (Heap { blk: old(h).blk.remove(p as u64), base: old(h).base.remove(p as u64), ..*old(h) }) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Global();
impl Global {
    pub open spec fn based0(a: u64, lay: Layout, b: Option<Base>) -> bool { b == Some(Base { at: a, lay: lay, own: None }) }
}
//@ file nanvm-lib/src/mem/global.rs
//@ fn <Dealloc for Global>::dealloc
//@ head impl Dealloc for Global
//@ members
    type BlockHeader = Cell0;
    open spec fn based(a: u64, lay: Layout, b: Option<Base>) -> bool { Global::based0(a, lay, b) }
//@ sub dealloc(ptr: *mut u8 => dealloc(Tracked(h): Tracked<&mut Heap>, ptr: *mut u8
//@ sub dealloc(ptr, => sys_dealloc(Tracked(h), ptr,
//@ start
  proof {
    let h0 = *old(h);
    let a = ptr as u64;
    assert forall|l: u64| total(h0.base.remove(a), l, false) == #[trigger] (h0.lsize)(l) by { total_remove(h0.base, a, l, false); }
    assert forall|l: u64| total(h0.base.remove(a), l, true) == #[trigger] (h0.lcount)(l) by { total_remove(h0.base, a, l, true); }
  }
//@ fn <Manager for Global>::alloc
//@ head impl Manager for Global
//@ members
    type Dealloc = Global;
//@ sub alloc(self, => alloc(self, Tracked(h): Tracked<&mut Heap>, 
//@ sub = alloc( => = sys_alloc(Tracked(h),
//@ sub result.is_null() => vnull(result)
//@ sub handle_alloc_error(layout) => vpanic()
//@ tail
  proof {
    let h0 = *old(h);
    let a = result as u64;
    assert forall|l: u64| (#[trigger] (h.lsize)(l)) == total(h.base, l, false) by { total_insert(h0.base, a, h.base[a], l, false); }
    assert forall|l: u64| (#[trigger] (h.lcount)(l)) == total(h.base, l, true) by { total_insert(h0.base, a, h.base[a], l, true); }
  }
//@ raw
// The same two, for whoever has work left to do on the books.
//@ fn <Dealloc for Global>::dealloc
//@ head impl Global
//@ sub fn dealloc( => fn gdealloc(Tracked(h): Tracked<&mut Heap>, 
//@ sub dealloc(ptr, => sys_dealloc(Tracked(h), ptr,
  requires old(h).has(ptr as u64), old(h).blk[ptr as u64].st is Dying, !old(h).blk[ptr as u64].o.hd, old(h).blk[ptr as u64].o.items == 0,
    Global::based0(ptr as u64, layout, old(h).base_at(ptr as u64))
  ensures *final(h) == (Heap { blk: old(h).blk.remove(ptr as u64), base: old(h).base.remove(ptr as u64), ..*old(h) })
//@ fn <Manager for Global>::alloc
//@ head impl Global
//@ sub fn alloc(self, => fn galloc(self, Tracked(h): Tracked<&mut Heap>, 
//@ sub = alloc( => = sys_alloc(Tracked(h),
//@ sub result.is_null() => vnull(result)
//@ sub handle_alloc_error(layout) => vpanic()
  requires layout.ok(), layout.s > 0
  ensures old(h).gave(*final(h), res as u64, layout), res as u64 != 0
//@ raw

// ---- a Local counts what it gives ----
pub struct LCell { pub at: Ghost<u64> }
pub struct SCell { pub at: Ghost<u64> }
pub struct Local { pub counter: LCell, pub size: SCell }
pub open spec fn put(f: spec_fn(u64) -> int, a: u64, v: int) -> spec_fn(u64) -> int { |x: u64| if x == a { v } else { f(x) } }
impl LCell {
    #[verifier::external_body]
    pub fn get(&self, Tracked(h): Tracked<&Heap>) -> (r: isize) requires isize::MIN <= (h.lcount)(self.at@) <= isize::MAX ensures r == (h.lcount)(self.at@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, Tracked(h): Tracked<&mut Heap>, v: isize) ensures *final(h) == (Heap { lcount: put(old(h).lcount, self.at@, v as int), ..*old(h) }) { unimplemented!() }
}
impl SCell {
    #[verifier::external_body]
    pub fn get(&self, Tracked(h): Tracked<&Heap>) -> (r: usize) requires 0 <= (h.lsize)(self.at@) <= usize::MAX ensures r == (h.lsize)(self.at@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: usize, Tracked(h): Tracked<&mut Heap>) ensures *final(h) == (Heap { lsize: put(old(h).lsize, self.at@, v as int), ..*old(h) }) { unimplemented!() }
}
impl Local {
    pub open spec fn id(&self) -> Lid { Lid { c: self.counter.at@, s: self.size.at@ } }
    // block_layout, after the address of a Local
    pub open spec fn based0(a: u64, lay: Layout, b: Option<Base>) -> bool {
        let o = up(sz::<*const Local>() as int, lay.a as int);
        &&& b is Some && b->Some_0.own is Some && b->Some_0.at + o == a
        &&& Local::around(lay, b->Some_0.lay)
    }
    pub open spec fn around(lay: Layout, r: Layout) -> bool {
        r.s == up(sz::<*const Local>() as int, lay.a as int) + lay.s && r.a == (if al::<*const Local>() > lay.a { al::<*const Local>() as int } else { lay.a as int })
    }
}
// *p = l: the address of the Local is at p
#[verifier::external_body]
pub unsafe fn vput(p: *mut Header, l: &Local, Tracked(h): Tracked<&mut Heap>)
    requires old(h).has(p as u64), old(h).blk[p as u64].st is Fresh, !old(h).blk[p as u64].hdr, !old(h).blk[p as u64].o.hd, old(h).blk[p as u64].o.items == 0,
        old(h).base.dom().contains(p as u64), old(h).base[p as u64].at == p as u64,
        (p as u64) as int % (al::<Header>() as int) == 0, sz::<Header>() <= old(h).base[p as u64].lay.s
    ensures *final(h) == (Heap { base: old(h).base.insert(p as u64, Base { own: Some(l.id()), ..old(h).base[p as u64] }), ..*old(h) }) { unimplemented!() }
// &**p: the Local whose address is at p, where the memory of the block a starts (the Local outlives what it gave)
#[verifier::external_body]
pub unsafe fn vgot<'a>(p: *const Header, a: Ghost<u64>, Tracked(h): Tracked<&Heap>) -> (r: &'a Local)
    requires h.base.dom().contains(a@), h.base[a@].at == p as u64, h.base[a@].own is Some, p as u64 + sz::<Header>() <= a@
    ensures h.base[a@].own == Some(r.id()) { unimplemented!() }
//@ file nanvm-lib/src/mem/block_header.rs
//@ fn <BlockHeader for Cell<isize>>::ref_counter_update
//@ head impl LCell
//@ sub self.get() => self.get(Tracked(&*h))
//@ sub self.set( => self.set(Tracked(h),
//@ sub val as isize => vdisc(val)
  requires isize::MIN < (old(h).lcount)(self.at@) < isize::MAX
  ensures res == (old(h).lcount)(self.at@), *final(h) == (Heap { lcount: upd(old(h).lcount, self.at@, delta(val)), ..*old(h) })
//@ tail
  proof { assert(h.lcount =~= upd(old(h).lcount, self.at@, delta(val))); }
//@ file nanvm-lib/src/mem/local.rs
//@ item type Header
//@ item type HeaderLayout
//@ fn Local::layout
  requires is_pow2(block_layout.a as int)
  ensures res.0.fits(block_layout.a as int), Local::around(block_layout, res.1), res.1.ok(), res.1.s <= isize::MAX
//@ start
  proof { byte_facts(); type_facts::<*const Local>(); pow2_pos(block_layout.a as int); }
//@ tail
  proof { pow2_pos(layout.a as int); up_facts(layout.s as int, layout.a as int); }
//@ fn Local::size
//@ sub (&self) => (&self, Tracked(h): Tracked<&Heap>)
//@ sub self.size.get() => self.size.get(Tracked(h))
  requires h.books()
  ensures res == total(h.base, self.size.at@, false)
//@ start
  proof { h.books_bound(self.size.at@); }
//@ fn <Dealloc for &Local>::dealloc
//@ head impl<'a> Dealloc for &'a Local
//@ members
    type BlockHeader = Atomic0;
    open spec fn based(a: u64, lay: Layout, b: Option<Base>) -> bool { Local::based0(a, lay, b) }
//@ sub dealloc(block_p: *mut u8 => dealloc(Tracked(h): Tracked<&mut Heap>, block_p: *mut u8
//@ sub &mut *block_p => block_p as *const u8
//@ sub let local = &**p => let local = vgot(p, Ghost(block_p as u64), Tracked(&*h))
//@ sub local.size.get() => local.size.get(Tracked(&*h))
//@ addarg local.size.set => Tracked(h)
//@ sub Global::dealloc( => Global::gdealloc(Tracked(h),
//@ start
  let ghost h0 = *h;
  let ghost a = block_p as u64;
  let ghost m = h0.base[a];
  proof {
    byte_facts();
    let l = m.own->Some_0;
    h0.books_bound(l.c); h0.books_bound(l.s);
    total_remove(h0.base, a, l.c, true); total_remove(h0.base, a, l.s, false);
    total_pos(h0.base.remove(a), l.c, true); total_pos(h0.base.remove(a), l.s, false);
    pow2_pos(block_layout.a as int);
    up_facts(sz::<*const Local>() as int, block_layout.a as int);
  }
//@ before Global::dealloc(
  proof {
    // the block is the memory again
    let b = h.blk[a];
    h.blk = h.blk.remove(a).insert(p as u64, Blk { lay: m.lay, ..b });
    h.base = h.base.remove(a).insert(p as u64, Base { own: None, ..m });
  }
//@ end
  proof {
    let p = m.at;
    assert(p != a ==> !h0.base.dom().contains(p)) by { if p != a && h0.base.dom().contains(p) { assert(in_base(p, h0.base[p])); assert(apart(h0.base[p], m)); } }
    assert(p != a ==> !h0.blk.dom().contains(p));
    assert(h.base =~= h0.base.remove(a));
    assert(h.blk =~= h0.blk.remove(a));
    assert forall|l: u64| (#[trigger] (h.lsize)(l)) == total(h.base, l, false) by { total_remove(h0.base, a, l, false); }
    assert forall|l: u64| (#[trigger] (h.lcount)(l)) == total(h.base, l, true) by { total_remove(h0.base, a, l, true); }
  }
//@ fn <Manager for &Local>::alloc
//@ head impl<'a> Manager for &'a Local
//@ members
    type Dealloc = Self;
//@ sub alloc(self, => alloc(self, Tracked(h): Tracked<&mut Heap>,
//@ sub self.size.get() => self.size.get(Tracked(&*h))
//@ addarg self.size.set => Tracked(h)
//@ sub GLOBAL.alloc( => Global().galloc(Tracked(h),
//@ sub *p = self => vput(p, self, Tracked(h))
//@ sub to_adjacent(&*p) => to_adjacent(p as *const Header)
//@ start
  let ghost h0 = *h;
  proof {
    byte_facts();
    h0.books_bound(self.counter.at@); h0.books_bound(self.size.at@);
    pow2_pos(block_layout.a as int);
    up_facts(sz::<*const Local>() as int, block_layout.a as int);
  }
//@ before *p =
  proof { parts(header_layout, block_layout.a as int, block_layout.s as int, p as u64 as int); }
//@ tail
  proof {
    let q = p as u64;
    let a = (q + header_layout.size) as u64;
    parts(header_layout, block_layout.a as int, block_layout.s as int, q as int);
    let b = h.blk[q];
    let m = h.base[q];
    h.blk = h.blk.remove(q).insert(a, Blk { lay: block_layout, ..b });
    h.base = h.base.remove(q).insert(a, m);
    assert(!h0.base.dom().contains(a)) by { if h0.base.dom().contains(a) { assert(in_base(a, h0.base[a])); assert(apart(h0.base[a], m)); } }
    assert(!h0.blk.dom().contains(a));
    assert(h.base =~= h0.base.insert(a, m));
    assert(h.blk =~= h0.blk.insert(a, h.blk[a]));
    assert forall|l: u64| (#[trigger] (h.lsize)(l)) == total(h.base, l, false) by { total_insert(h0.base, a, m, l, false); }
    assert forall|l: u64| (#[trigger] (h.lcount)(l)) == total(h.base, l, true) by { total_insert(h0.base, a, m, l, true); }
  }
//@ raw

// ---- a value, replaced where it is ----
// the place a value is in: empty while the value is moved out; armed: a panic does not unwind from here on
pub struct Place<T> { pub v: Ghost<Option<T>>, pub armed: Ghost<bool> }
pub struct AbortOnDrop {}
impl<T> Place<T> {
    #[verifier::external_body]
    pub fn vread(&mut self) -> (r: T) requires old(self).v@ is Some ensures r == old(self).v@->Some_0, final(self).v@ is None, final(self).armed == old(self).armed { unimplemented!() }
    #[verifier::external_body]
    pub fn vwrite(&mut self, x: T) requires old(self).v@ is None ensures final(self).v@ == Some(x), final(self).armed == old(self).armed { unimplemented!() }
    #[verifier::external_body]
    pub fn varm(&mut self) -> (r: AbortOnDrop) ensures final(self).armed@, final(self).v == old(self).v { unimplemented!() }
    #[verifier::external_body]
    pub fn vdisarm(&mut self, g: AbortOnDrop) requires old(self).v@ is Some ensures !final(self).armed@, final(self).v == old(self).v { unimplemented!() }
    // f(x): a panic in f unwinds to the owner of the place, who drops what is in it
    #[verifier::external_body]
    pub fn vcall<F: FnOnce(T) -> T>(&mut self, f: F, x: T) -> (r: T)
        requires f.requires((x,)), old(self).v@ is None ==> old(self).armed@
        ensures f.ensures((x,), r), *final(self) == *old(self) { f(x) }
}
//@ file nanvm-lib/src/common/ref_mut.rs
//@ fn RefMut::modify
//@ head impl<T> Place<T>
//@ sub modify(&mut self, f: impl FnOnce(Self) -> Self) where Self: Sized, => modify<F: FnOnce(T) -> T>(&mut self, f: F)
//@ sub self.to_mut_ptr() => self
//@ sub AbortOnDrop() => p.varm()
//@ sub p.write(f(p.read())) => { let x = p.vread(); let y = p.vcall(f, x); p.vwrite(y) }
//@ sub forget(guard) => p.vdisarm(guard)
  requires old(self).v@ is Some, !old(self).armed@, f.requires((old(self).v@->Some_0,))
  ensures final(self).v@ is Some, f.ensures((old(self).v@->Some_0,), final(self).v@->Some_0), !final(self).armed@
