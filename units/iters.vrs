// ---------------------------------------------------------------------------------------------
// Iterators. Rust's slice/adapter iterators are replaced (same call syntax, `.iter()` -> `.viter()`)
// by these structs; every `next` here is itself verified against the contract below.
// ---------------------------------------------------------------------------------------------
pub trait VIter: Sized {
    type Item;
    spec fn inv(&self) -> bool;
    spec fn inf(&self) -> bool;
    spec fn n(&self) -> int;
    spec fn at(&self, i: int) -> Self::Item;

    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures
            final(self).inv(),
            final(self).inf() == old(self).inf(),
            match r {
                Some(x) => (old(self).inf() || old(self).n() > 0) && x == old(self).at(0)
                    && (!old(self).inf() ==> final(self).n() == old(self).n() - 1)
                    && (forall|i: int| i >= 0 ==> #[trigger] final(self).at(i) == old(self).at(i + 1)),
                None => !old(self).inf() && old(self).n() == 0 && final(self).n() == 0,
            };
    proof fn n_nonneg(&self)
        requires self.inv(), !self.inf(),
        ensures self.n() >= 0;
}

pub trait VIterExt: VIter {
    spec fn me(self) -> Self;
    fn zip<B: VIter>(self, b: B) -> (r: VZip<Self, B>)
        requires self.inv(), b.inv(),
        ensures r.inv(), r.a == self, r.b == b;
    fn chain<B: VIter<Item = Self::Item>>(self, b: B) -> (r: VChain<Self, B>)
        requires self.inv(), b.inv(), !self.inf(),
        ensures r.inv(), r.a == self, r.b == b;
}
impl<I: VIter> VIterExt for I {
    open spec fn me(self) -> Self { self }
    fn zip<B: VIter>(self, b: B) -> (r: VZip<Self, B>) { VZip { a: self, b } }
    fn chain<B: VIter<Item = Self::Item>>(self, b: B) -> (r: VChain<Self, B>) { VChain { a: self, b } }
}

pub open spec fn iseq<I: VIter>(s: I) -> Seq<I::Item> { Seq::new(s.n() as nat, |i: int| s.at(i)) }
// s is st advanced by k items
pub open spec fn vadv<I: VIter>(st: I, s: I, k: int) -> bool {
    &&& s.inv()
    &&& s.inf() == st.inf()
    &&& 0 <= k
    &&& (st.inf() || (k <= st.n() && s.n() == st.n() - k))
    &&& (forall|i: int| i >= 0 ==> #[trigger] s.at(i) == st.at(i + k))
}

pub struct VZip<A, B> { pub a: A, pub b: B }
impl<A: VIter, B: VIter> VIter for VZip<A, B> {
    type Item = (A::Item, B::Item);
    open spec fn inv(&self) -> bool { self.a.inv() && self.b.inv() }
    open spec fn inf(&self) -> bool { self.a.inf() && self.b.inf() }
    open spec fn n(&self) -> int {
        if self.a.inf() { self.b.n() } else if self.b.inf() { self.a.n() }
        else if self.a.n() < self.b.n() { self.a.n() } else { self.b.n() }
    }
    open spec fn at(&self, i: int) -> (A::Item, B::Item) { (self.a.at(i), self.b.at(i)) }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        proof { if !self.a.inf() { self.a.n_nonneg(); } if !self.b.inf() { self.b.n_nonneg(); } }
        match self.a.next() {
            None => None,
            Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) },
        }
    }
    proof fn n_nonneg(&self) { if !self.a.inf() { self.a.n_nonneg(); } if !self.b.inf() { self.b.n_nonneg(); } }
}

pub struct VChain<A, B> { pub a: A, pub b: B }
impl<A: VIter, B: VIter<Item = A::Item>> VIter for VChain<A, B> {
    type Item = A::Item;
    open spec fn inv(&self) -> bool { self.a.inv() && self.b.inv() && !self.a.inf() }
    open spec fn inf(&self) -> bool { self.b.inf() }
    open spec fn n(&self) -> int { self.a.n() + self.b.n() }
    open spec fn at(&self, i: int) -> A::Item { if i < self.a.n() { self.a.at(i) } else { self.b.at(i - self.a.n()) } }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        proof { self.a.n_nonneg(); if !self.b.inf() { self.b.n_nonneg(); } }
        match self.a.next() {
            Some(x) => Some(x),
            None => self.b.next(),
        }
    }
    proof fn n_nonneg(&self) { self.a.n_nonneg(); if !self.b.inf() { self.b.n_nonneg(); } }
}

pub struct VRepeat<T> { pub x: T }
impl<T: Copy> VIter for VRepeat<T> {
    type Item = T;
    open spec fn inv(&self) -> bool { true }
    open spec fn inf(&self) -> bool { true }
    open spec fn n(&self) -> int { 0 }
    open spec fn at(&self, i: int) -> T { self.x }
    fn next(&mut self) -> (r: Option<Self::Item>) { Some(self.x) }
    proof fn n_nonneg(&self) {}
}

pub struct VCopied<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
impl<'a, T: Copy> VCopied<'a, T> {
    pub fn rev(self) -> (r: VRev<'a, T>)
        requires self.inv(),
        ensures r.inv(), r.s == self.s, r.lo == self.lo, r.hi == self.hi
    { VRev { s: self.s, lo: self.lo, hi: self.hi } }
}
impl<'a, T: Copy> VIter for VCopied<'a, T> {
    type Item = T;
    open spec fn inv(&self) -> bool { self.lo <= self.hi <= self.s@.len() }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { self.hi - self.lo }
    open spec fn at(&self, i: int) -> T { self.s@[self.lo + i] }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        if self.lo < self.hi { let x = self.s[self.lo]; self.lo = self.lo + 1; Some(x) } else { None }
    }
    proof fn n_nonneg(&self) {}
}
pub struct VRev<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
impl<'a, T: Copy> VIter for VRev<'a, T> {
    type Item = T;
    open spec fn inv(&self) -> bool { self.lo <= self.hi <= self.s@.len() }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { self.hi - self.lo }
    open spec fn at(&self, i: int) -> T { self.s@[self.hi - 1 - i] }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        if self.lo < self.hi { self.hi = self.hi - 1; Some(self.s[self.hi]) } else { None }
    }
    proof fn n_nonneg(&self) {}
}

pub struct VRef<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
impl<'a, T> VRef<'a, T> {
    pub fn copied(self) -> (r: VCopied<'a, T>) where T: Copy
        requires self.inv(),
        ensures r.inv(), r.s == self.s, r.lo == self.lo, r.hi == self.hi, iseq(r) == self.s@.subrange(self.lo as int, self.hi as int),
            self.lo == 0 && self.hi == self.s@.len() ==> iseq(r) == self.s@
    { let r = VCopied { s: self.s, lo: self.lo, hi: self.hi }; proof { assert(iseq(r) =~= self.s@.subrange(self.lo as int, self.hi as int)); assert(self.s@.subrange(0, self.s@.len() as int) =~= self.s@); } r }
}
impl<'a, T> VIter for VRef<'a, T> {
    type Item = &'a T;
    open spec fn inv(&self) -> bool { self.lo <= self.hi <= self.s@.len() }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { self.hi - self.lo }
    open spec fn at(&self, i: int) -> &'a T { &self.s@[self.lo + i] }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        if self.lo < self.hi { let x = &self.s[self.lo]; self.lo = self.lo + 1; Some(x) } else { None }
    }
    proof fn n_nonneg(&self) {}
}
pub struct VEnum<'a, T> { pub s: &'a [T], pub base: usize, pub lo: usize, pub hi: usize }
impl<'a, T> VRef<'a, T> {
    pub fn enumerate(self) -> (r: VEnum<'a, T>)
        requires self.inv(),
        ensures r.inv(), r.s == self.s, r.base == self.lo, r.lo == self.lo, r.hi == self.hi
    { VEnum { s: self.s, base: self.lo, lo: self.lo, hi: self.hi } }
}
impl<'a, T> VIter for VEnum<'a, T> {
    type Item = (usize, &'a T);
    open spec fn inv(&self) -> bool { self.base <= self.lo <= self.hi <= self.s@.len() }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { self.hi - self.lo }
    open spec fn at(&self, i: int) -> (usize, &'a T) { ((self.lo - self.base + i) as usize, &self.s@[self.lo + i]) }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        if self.lo < self.hi { let k = self.lo; self.lo = k + 1; Some((k - self.base, &self.s[k])) } else { None }
    }
    proof fn n_nonneg(&self) {}
}
pub trait ViterExt<T> {
    spec fn vs(&self) -> Seq<T>;
    fn viter<'a>(&'a self) -> (r: VRef<'a, T>)
        ensures r.inv(), r.lo == 0, r.hi == self.vs().len(), r.s@ == self.vs();
}
impl<T> ViterExt<T> for [T] {
    open spec fn vs(&self) -> Seq<T> { self@ }
    fn viter<'a>(&'a self) -> (r: VRef<'a, T>) { VRef { s: self, lo: 0, hi: self.len() } }
}
impl<T> ViterExt<T> for Vec<T> {
    open spec fn vs(&self) -> Seq<T> { self@ }
    fn viter<'a>(&'a self) -> (r: VRef<'a, T>) { VRef { s: self.as_slice(), lo: 0, hi: self.len() } }
}

// index ranges used as iterators: `(a..=b).rev()` etc.
pub struct VRange { pub lo: i128, pub hi: i128, pub back: bool }   // lo..=hi
impl VRange {
    pub fn rev(self) -> (r: VRange)
        requires self.inv(), !self.back,
        ensures r == (VRange { back: true, ..self }), r.inv()
    { VRange { lo: self.lo, hi: self.hi, back: true } }
}
pub fn vrange_inc(a: usize, b: usize) -> (r: VRange)
    ensures r.inv(), !r.back, a <= b ==> r.lo == a && r.hi == b, a > b ==> r.n() == 0
{ if a <= b { VRange { lo: a as i128, hi: b as i128, back: false } } else { VRange { lo: 0, hi: -1, back: false } } }
pub fn vrange(a: usize, b: usize) -> (r: VRange)
    ensures r.inv(), !r.back, a < b ==> r.lo == a && r.hi == b - 1, a >= b ==> r.n() == 0
{ if a < b { VRange { lo: a as i128, hi: b as i128 - 1, back: false } } else { VRange { lo: 0, hi: -1, back: false } } }
impl VIter for VRange {
    type Item = usize;
    open spec fn inv(&self) -> bool { 0 <= self.lo <= self.hi + 1 && self.hi <= usize::MAX }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { self.hi - self.lo + 1 }
    open spec fn at(&self, i: int) -> usize { if self.back { (self.hi - i) as usize } else { (self.lo + i) as usize } }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        if self.lo > self.hi { return None; }
        if self.back {
            let x = self.hi;
            self.hi = self.hi - 1;
            Some(x as usize)
        } else {
            let x = self.lo;
            self.lo = self.lo + 1;
            Some(x as usize)
        }
    }
    proof fn n_nonneg(&self) {}
}

// by-value iteration
pub struct VOwned<T> { pub v: Vec<T>, pub orig: Ghost<Seq<T>>, pub k: Ghost<int> }
impl<T> VIter for VOwned<T> {
    type Item = T;
    open spec fn inv(&self) -> bool { 0 <= self.k@ <= self.orig@.len() && self.v@ == self.orig@.subrange(self.k@, self.orig@.len() as int) }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { self.v@.len() as int }
    open spec fn at(&self, i: int) -> T { self.orig@[self.k@ + i] }
    fn next(&mut self) -> (r: Option<Self::Item>) {
        if self.v.len() == 0 { None } else {
            let x = self.v.remove(0);
            self.k = Ghost(self.k@ + 1);
            proof { assert(self.v@ =~= self.orig@.subrange(self.k@, self.orig@.len() as int)); }
            Some(x)
        }
    }
    proof fn n_nonneg(&self) {}
}
pub trait VInto: Sized {
    type I: VIter;
    spec fn into_ok(self, r: Self::I) -> bool;
    spec fn fin(self) -> bool;
    spec fn vseq(self) -> Seq<<Self::I as VIter>::Item>;
    fn vinto(self) -> (r: Self::I)
        ensures self.into_ok(r), self.fin() ==> r.inv() && !r.inf() && iseq(r) == self.vseq() && r.n() == self.vseq().len();
}
impl<I: VIter> VInto for I {
    type I = I;
    open spec fn into_ok(self, r: Self::I) -> bool { r == self }
    open spec fn fin(self) -> bool { self.inv() && !self.inf() }
    open spec fn vseq(self) -> Seq<<Self::I as VIter>::Item> { iseq(self) }
    fn vinto(self) -> (r: Self::I) { proof { if self.fin() { self.n_nonneg(); } } self }
}
impl<T> VInto for Vec<T> {
    type I = VOwned<T>;
    open spec fn into_ok(self, r: Self::I) -> bool { r.inv() && r.v == self && r.orig@ == self@ && r.k@ == 0 }
    open spec fn fin(self) -> bool { true }
    open spec fn vseq(self) -> Seq<<Self::I as VIter>::Item> { self@ }
    fn vinto(self) -> (r: Self::I) {
        let ghost o = self@;
        proof { assert(o =~= o.subrange(0, o.len() as int)); }
        let r = VOwned { v: self, orig: Ghost(o), k: Ghost(0) };
        proof { assert(iseq(r) =~= o); }
        r
    }
}
impl<'a, T> VInto for &'a Vec<T> {
    type I = VRef<'a, T>;
    open spec fn into_ok(self, r: Self::I) -> bool { r.inv() && r.lo == 0 && r.hi == self@.len() && r.s@ == self@ }
    open spec fn fin(self) -> bool { true }
    open spec fn vseq(self) -> Seq<<Self::I as VIter>::Item> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn vinto(self) -> (r: Self::I) { let r = self.viter(); proof { assert(iseq(r) =~= self.vseq()); } r }
}
impl<'a, T> VInto for &'a [T] {
    type I = VRef<'a, T>;
    open spec fn into_ok(self, r: Self::I) -> bool { r.inv() && r.lo == 0 && r.hi == self@.len() && r.s@ == self@ }
    open spec fn fin(self) -> bool { true }
    open spec fn vseq(self) -> Seq<<Self::I as VIter>::Item> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn vinto(self) -> (r: Self::I) { let r = self.viter(); proof { assert(iseq(r) =~= self.vseq()); } r }
}

pub trait VExact: VIter {
    fn len(&self) -> (r: usize)
        requires self.inv(), !self.inf(), self.n() <= usize::MAX
        ensures r == self.n();
}
impl<T> VExact for VOwned<T> { fn len(&self) -> (r: usize) { self.v.len() } }
impl<'a, T: Copy> VExact for VCopied<'a, T> { fn len(&self) -> (r: usize) { self.hi - self.lo } }
pub struct VOpt<T> { pub x: Option<T>, pub y: Ghost<T> }
impl<T: Copy> VIter for VOpt<T> {
    type Item = T;
    open spec fn inv(&self) -> bool { self.x is Some ==> self.x == Some(self.y@) }
    open spec fn inf(&self) -> bool { false }
    open spec fn n(&self) -> int { if self.x is Some { 1 } else { 0 } }
    open spec fn at(&self, i: int) -> T { self.y@ }
    fn next(&mut self) -> (r: Option<Self::Item>) { let r = self.x; self.x = None; r }
    proof fn n_nonneg(&self) {}
}
impl<T: Copy> VExact for VOpt<T> { fn len(&self) -> (r: usize) { if self.x.is_some() { 1 } else { 0 } } }
pub fn vonce<T: Copy>(x: T) -> (r: VOpt<T>) ensures r.inv(), r.x == Some(x), r.y@ == x, iseq(r) == seq![x] { let r = VOpt { x: Some(x), y: Ghost(x) }; proof { assert(iseq(r) =~= seq![x]); } r }
pub fn vempty<T: Copy>() -> (r: VOpt<T>) ensures r.inv(), r.x is None, iseq(r) == Seq::<T>::empty() { let r = VOpt { x: None, y: Ghost(arbitrary()) }; proof { assert(iseq(r) =~= Seq::<T>::empty()); } r }
pub fn vrepeat<T: Copy>(x: T) -> (r: VRepeat<T>) ensures r.x == x { VRepeat { x } }

pub trait VExtendExt<T> {
    spec fn cs(&self) -> Seq<T>;
    fn vextend(&mut self, v: Vec<T>)
        ensures final(self).cs() == old(self).cs() + v@;
}
impl<T> VExtendExt<T> for Vec<T> {
    open spec fn cs(&self) -> Seq<T> { self@ }
    fn vextend(&mut self, v: Vec<T>) { let mut w = v; self.append(&mut w); }
}
