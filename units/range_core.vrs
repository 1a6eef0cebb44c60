//@ gsub .into_iter() => .vinto()
//@ gsub .cast() => .vcast()
//@ gsub RangeInclusive<char> => VRangeIncl<char>
//@ gsub T::STATIC_REF_DEFAULT => T::static_ref_default()
//@ gsub impl Iterator<Item = Entry<Num, T>> => impl VIter<Item = Entry<Num, T>>
//@ raw
pub assume_specification [ char::from_u32 ] (i: u32) -> (r: Option<char>)
  ensures match r { Some(c) => c as u32 == i, None => i > 0x10ffff || 0xd800 <= i <= 0xdfff };
pub struct VRangeIncl<T> { pub s: T, pub e: T }
impl<T> VRangeIncl<T> {
    pub fn start(&self) -> (r: &T) ensures *r == self.s { &self.s }
    pub fn end(&self) -> (r: &T) ensures *r == self.e { &self.e }
}
pub trait StaticRefDefault: Sized { spec fn sdef() -> Self; fn static_ref_default<'a>() -> (r: &'a Self) ensures *r == Self::sdef(); }
impl<T> StaticRefDefault for State<T> {
    open spec fn sdef() -> Self { State { value: None } }
    #[verifier::external_body]
    fn static_ref_default<'a>() -> (r: &'a Self) { unimplemented!() }
}
// what a caller of `union` must grant and gets
pub trait Union: Sized {
    spec fn upre(self, o: Self) -> bool;
    spec fn uspec(self, o: Self) -> Self;
    fn union(self, other: Self) -> (r: Self) requires self.upre(other) ensures r == self.uspec(other);
}
// ---- keys: a total order ----
pub open spec fn lt<N: PartialOrd>(a: N, b: N) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn le<N: PartialOrd>(a: N, b: N) -> bool { lt(a, b) || a == b }
#[verifier::opaque]
pub open spec fn total<N: PartialOrd>() -> bool {
    &&& N::obeys_partial_cmp_spec()
    &&& (forall|a: N, b: N| #[trigger] lt(a, b) ==> a != b && !lt(b, a))
    &&& (forall|a: N, b: N| #[trigger] a.partial_cmp_spec(&b) == (if a == b { Some(Ordering::Equal) } else if lt(a, b) { Some(Ordering::Less) } else { Some(Ordering::Greater) }))
    &&& (forall|a: N, b: N| #[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Greater) <==> lt(b, a))
    &&& (forall|a: N, b: N, c: N| #[trigger] lt(a, b) && #[trigger] lt(b, c) ==> lt(a, c))
}
// the keys the tokenizer uses are totally ordered
// (char comparison is by code point: assumed, vstd has no contract for it)
pub open spec fn char_order() -> bool { char::obeys_partial_cmp_spec() && (forall|a: char, b: char| #[trigger] a.partial_cmp_spec(&b) == (if a as u32 == b as u32 { Some(Ordering::Equal) } else if (a as u32) < b as u32 { Some(Ordering::Less) } else { Some(Ordering::Greater) })) && (forall|a: char, b: char| #[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Equal) <==> a == b) }
#[verifier::external_body]
pub proof fn axiom_char_order() ensures char_order() {}
pub proof fn total_char() ensures total::<char>(), char_order() { reveal(total); axiom_char_order(); }
proof fn total_i32() ensures total::<i32>() { reveal(total); }
pub open spec fn copies<T: Clone>() -> bool { forall|x: &T, y: T| #[trigger] call_ensures(T::clone, (x,), y) ==> *x == y }
// ---- the map an entry list denotes ----
#[verifier::opaque]
pub open spec fn sorted<N: PartialOrd, T>(l: Seq<Entry<N, T>>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> lt(#[trigger] l[i].key, #[trigger] l[j].key) }
pub open spec fn is_pos<N: PartialOrd, T>(l: Seq<Entry<N, T>>, k: N, p: int) -> bool {
    0 <= p <= l.len() && (forall|i: int| 0 <= i < p ==> lt(#[trigger] l[i].key, k)) && (p < l.len() ==> le(k, l[p].key))
}
// number of entries whose key is below k
pub open spec fn pos<N: PartialOrd, T>(l: Seq<Entry<N, T>>, k: N) -> int decreases l.len() {
    if l.len() == 0 || le(k, l[0].key) { 0 } else { 1 + pos(l.skip(1), k) }
}
pub open spec fn look<N: PartialOrd, T>(l: Seq<Entry<N, T>>, k: N) -> Option<T> { let p = pos(l, k); if p < l.len() { Some(l[p].value) } else { None } }
pub proof fn pos_is<N: PartialOrd, T>(l: Seq<Entry<N, T>>, k: N, p: int)
  requires total::<N>(), sorted(l), is_pos(l, k, p)
  ensures pos(l, k) == p
  decreases l.len()
{ reveal(total); reveal(sorted);
    if l.len() > 0 && p > 0 {
        let t = l.skip(1);
        assert(lt(l[0].key, k));
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i].key, #[trigger] t[j].key) by { assert(t[i] == l[i + 1] && t[j] == l[j + 1]); }
        assert forall|i: int| 0 <= i < p - 1 implies lt(#[trigger] t[i].key, k) by { assert(t[i] == l[i + 1]); }
        pos_is(t, k, p - 1);
    }
}
pub proof fn pos_has<N: PartialOrd, T>(l: Seq<Entry<N, T>>, k: N) requires total::<N>(), sorted(l) ensures is_pos(l, k, pos(l, k)) decreases l.len() { reveal(total); reveal(sorted);
    if l.len() > 0 && !le(k, l[0].key) {
        let t = l.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i].key, #[trigger] t[j].key) by { assert(t[i] == l[i + 1] && t[j] == l[j + 1]); }
        pos_has(t, k);
        let p = pos(t, k);
        assert(k.partial_cmp_spec(&l[0].key) == Some(Ordering::Greater));
        assert forall|i: int| 0 <= i < p + 1 implies lt(#[trigger] l[i].key, k) by { if i > 0 { assert(t[i - 1] == l[i]); } }
        if p < t.len() { assert(t[p] == l[p + 1]); }
    }
}
pub open spec fn comb<T: Union>(x: Option<T>, y: Option<T>) -> Option<T> {
    match (x, y) { (Some(a), Some(b)) => Some(a.uspec(b)), (Some(a), None) => Some(a), (None, b) => b }
}
#[verifier::opaque]
pub open spec fn compat<N: PartialOrd, T: Union>(a: Seq<Entry<N, T>>, b: Seq<Entry<N, T>>) -> bool {
    forall|k: N| match (#[trigger] look(a, k), look(b, k)) { (Some(x), Some(y)) => x.upre(y), _ => true }
}
#[verifier::opaque]
pub open spec fn is_merge<N: PartialOrd, T: Union>(a: Seq<Entry<N, T>>, b: Seq<Entry<N, T>>, r: Seq<Entry<N, T>>) -> bool {
    sorted(r) && forall|k: N| #[trigger] look(r, k) == comb(look(a, k), look(b, k))
}
pub open spec fn rem<N: PartialOrd, T, I: VIter<Item = Entry<N, T>>>(h: Option<Entry<N, T>>, i: I) -> Seq<Entry<N, T>> {
    match h { Some(x) => seq![x] + iseq(i), None => Seq::empty() }
}
#[verifier::opaque]
pub open spec fn itok<N: PartialOrd, T, I: VIter<Item = Entry<N, T>>>(h: Option<Entry<N, T>>, i: I, l: Seq<Entry<N, T>>, k: int) -> bool {
    i.inv() && !i.inf() && i.n() >= 0 && (h is None ==> i.n() == 0) && 0 <= k <= l.len() && rem(h, i) == l.skip(k)
}
#[verifier::opaque]
pub open spec fn minv<N: PartialOrd, T: Union>(a: Seq<Entry<N, T>>, b: Seq<Entry<N, T>>, ia: int, ib: int, r: Seq<Entry<N, T>>) -> bool {
    &&& sorted(r)
    &&& (forall|i: int, j: int| 0 <= i < r.len() && ia <= j < a.len() ==> lt(#[trigger] r[i].key, #[trigger] a[j].key))
    &&& (forall|i: int, j: int| 0 <= i < r.len() && ib <= j < b.len() ==> lt(#[trigger] r[i].key, #[trigger] b[j].key))
    &&& (ia > 0 ==> r.len() > 0 && le(a[ia - 1].key, r.last().key))
    &&& (ib > 0 ==> r.len() > 0 && le(b[ib - 1].key, r.last().key))
    &&& (forall|k: N| r.len() > 0 && le(k, r.last().key) ==> #[trigger] look(r, k) == comb(look(a, k), look(b, k)))
}
// one step: the smaller head key (or the only one left) is emitted
pub open spec fn head<N: PartialOrd, T>(l: Seq<Entry<N, T>>, i: int) -> Option<Entry<N, T>> { if i < l.len() { Some(l[i]) } else { None } }
pub proof fn head_look<N: PartialOrd, T>(l: Seq<Entry<N, T>>, i: int, k: N, lo: N, any: bool)
  requires total::<N>(), sorted(l), 0 <= i <= l.len(), i > 0 ==> le(l[i - 1].key, lo), i > 0 ==> any, any ==> lt(lo, k), i < l.len() ==> le(k, l[i].key)
  ensures pos(l, k) == i, look(l, k) == (if i < l.len() { Some(l[i].value) } else { None })
{ reveal(total); reveal(sorted);
    assert forall|j: int| 0 <= j < i implies lt(#[trigger] l[j].key, k) by { if j < i - 1 { assert(lt(l[j].key, l[i - 1].key)); } assert(le(l[i - 1].key, lo)); assert(lt(lo, k)); }
    assert(is_pos(l, k, i));
    pos_is(l, k, i);
}
pub proof fn merge_step<N: PartialOrd, T: Union>(a: Seq<Entry<N, T>>, b: Seq<Entry<N, T>>, ia: int, ib: int, r: Seq<Entry<N, T>>, e: Entry<N, T>, ja: int, jb: int)
  requires total::<N>(), sorted(a), sorted(b), minv(a, b, ia, ib, r), 0 <= ia <= a.len(), 0 <= ib <= b.len(),
    ia < a.len() || ib < b.len(),
    ia < a.len() ==> le(e.key, a[ia].key), ib < b.len() ==> le(e.key, b[ib].key),
    (ia < a.len() && e.key == a[ia].key) || (ib < b.len() && e.key == b[ib].key),
    ja == (if ia < a.len() && e.key == a[ia].key { ia + 1 } else { ia }),
    jb == (if ib < b.len() && e.key == b[ib].key { ib + 1 } else { ib }),
    Some(e.value) == comb(if ia < a.len() { Some(a[ia].value) } else { None }, if ib < b.len() { Some(b[ib].value) } else { None }),
  ensures minv(a, b, ja, jb, r.push(e)), 0 <= ja <= a.len(), 0 <= jb <= b.len(),
{ reveal(total); reveal(sorted); reveal(minv);
    let s = r.push(e);
    assert(s.last() == e);
    assert forall|i: int| 0 <= i < r.len() implies lt(#[trigger] r[i].key, e.key) by {
        if ia < a.len() && e.key == a[ia].key { assert(lt(r[i].key, a[ia].key)); } else { assert(lt(r[i].key, b[ib].key)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] s[i].key, #[trigger] s[j].key) by { if j == r.len() { assert(s[i] == r[i]); } else { assert(s[i] == r[i] && s[j] == r[j]); } }
    assert forall|i: int, j: int| 0 <= i < s.len() && ja <= j < a.len() implies lt(#[trigger] s[i].key, #[trigger] a[j].key) by {
        if i < r.len() { assert(s[i] == r[i]); } else { if j > ia { assert(lt(a[ia].key, a[j].key)); } }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && jb <= j < b.len() implies lt(#[trigger] s[i].key, #[trigger] b[j].key) by {
        if i < r.len() { assert(s[i] == r[i]); } else { if j > ib { assert(lt(b[ib].key, b[j].key)); } }
    }
    let any = r.len() > 0;
    let lo = r.last().key;
    assert(any ==> lt(lo, e.key)) by { if any { assert(lt(r[r.len() - 1].key, e.key)); } }
    assert(ja > 0 ==> le(a[ja - 1].key, e.key));
    assert(jb > 0 ==> le(b[jb - 1].key, e.key));
    assert forall|k: N| le(k, e.key) implies #[trigger] look(s, k) == comb(look(a, k), look(b, k)) by {
        if any && le(k, lo) {
            assert(look(r, k) == comb(look(a, k), look(b, k)));
            pos_has(r, k);
            let p = pos(r, k);
            if p == r.len() { assert(lt(r[r.len() - 1].key, k)); assert(false); }
            assert forall|i: int| 0 <= i < p implies lt(#[trigger] s[i].key, k) by { assert(s[i] == r[i]); }
            assert(s[p] == r[p]);
            assert(is_pos(s, k, p));
            pos_is(s, k, p);
        } else {
            assert(any ==> lt(lo, k)) by { assert(k.partial_cmp_spec(&lo) == Some(Ordering::Greater) || !any || le(k, lo)); }
            head_look(a, ia, k, lo, any);
            head_look(b, ib, k, lo, any);
            assert forall|i: int| 0 <= i < r.len() implies lt(#[trigger] s[i].key, k) by { assert(s[i] == r[i]); if i < r.len() - 1 { assert(lt(r[i].key, r[r.len() - 1].key)); } }
            assert(is_pos(s, k, r.len() as int));
            pos_is(s, k, r.len() as int);
        }
    }
}
// both heads still present: the union is between the values both maps have at the emitted key
pub proof fn heads_compat<N: PartialOrd, T: Union>(a: Seq<Entry<N, T>>, b: Seq<Entry<N, T>>, ia: int, ib: int, r: Seq<Entry<N, T>>)
  requires total::<N>(), sorted(a), sorted(b), compat(a, b), minv(a, b, ia, ib, r), 0 <= ia < a.len(), 0 <= ib < b.len()
  ensures a[ia].value.upre(b[ib].value)
{ reveal(total); reveal(sorted); reveal(minv); reveal(compat);
    let k = if lt(a[ia].key, b[ib].key) { a[ia].key } else { b[ib].key };
    let any = r.len() > 0;
    let lo = r.last().key;
    assert(a[ia].key.partial_cmp_spec(&b[ib].key) is Some);
    if any { assert(lt(r[r.len() - 1].key, a[ia].key)); assert(lt(r[r.len() - 1].key, b[ib].key)); }
    head_look(a, ia, k, lo, any);
    head_look(b, ib, k, lo, any);
    assert(look(a, k) == Some(a[ia].value));
}
pub proof fn merge_done<N: PartialOrd, T: Union>(a: Seq<Entry<N, T>>, b: Seq<Entry<N, T>>, r: Seq<Entry<N, T>>)
  requires total::<N>(), sorted(a), sorted(b), minv(a, b, a.len() as int, b.len() as int, r)
  ensures is_merge(a, b, r)
{ reveal(total); reveal(sorted); reveal(minv); reveal(is_merge);
    assert forall|k: N| #[trigger] look(r, k) == comb(look(a, k), look(b, k)) by {
        let any = r.len() > 0;
        let lo = r.last().key;
        if !(any && le(k, lo)) {
            assert(any ==> lt(lo, k)) by { assert(k.partial_cmp_spec(&lo) == Some(Ordering::Greater) || !any || le(k, lo)); }
            head_look(a, a.len() as int, k, lo, any);
            head_look(b, b.len() as int, k, lo, any);
            assert forall|i: int| 0 <= i < r.len() implies lt(#[trigger] r[i].key, k) by { if i < r.len() - 1 { assert(lt(r[i].key, r[r.len() - 1].key)); } }
            assert(is_pos(r, k, r.len() as int));
            pos_is(r, k, r.len() as int);
        }
    }
}
//@ file nanvm-lib/src/range_map.rs
//@ gsub #[derive(Clone, PartialEq, Debug)] => 
//@ item struct Entry
//@ item struct RangeMap
//@ item struct State
//@ fn <Union for State<T>>::union
//@ members
    // defined when at most one value is set, or both are the same
    open spec fn upre(self, o: Self) -> bool { T::obeys_eq_spec() && (match (self.value, o.value) { (Some(x), Some(y)) => x.eq_spec(&y), _ => true }) }
    open spec fn uspec(self, o: Self) -> Self { if o.value is Some { o } else { self } }
//@ fn RangeMap::get
  requires total::<Num>(), sorted(self.list@), self.list@.len() <= i32::MAX
  ensures *res == (match look(self.list@, key) { Some(v) => v, None => T::sdef() })
//@ loop 0
  invariant
    total::<Num>(), sorted(self.list@), len == self.list@.len(), self.list@.len() <= i32::MAX,
    0 <= b <= len, b - 1 <= e <= len - 1,
    forall|i: int| 0 <= i < b ==> lt(#[trigger] self.list@[i].key, key),
    forall|i: int| e < i < len ==> le(key, #[trigger] self.list@[i].key),
  decreases e + 1 - b
//@ start
  proof { reveal(total); reveal(sorted); }
//@ loop 0 start
  proof { reveal(total); reveal(sorted);
    if b >= len || e < b { assert(is_pos(self.list@, key, b as int)); pos_is(self.list@, key, b as int); }
    else { let d = (e - b) as i32; assert(d >> 1 == d / 2) by(bit_vector) requires d >= 0i32; }
  }
//@ before if key <= self.list
  proof {
    let m = self.list@[mid as int].key;
    assert(key.partial_cmp_spec(&m) == Some(Ordering::Greater) ==> lt(m, key));
    assert forall|i: int| mid <= i < len && le(key, m) implies le(key, #[trigger] self.list@[i].key) by { if i > mid { assert(lt(self.list@[mid as int].key, self.list@[i].key)); } }
    assert forall|i: int| 0 <= i <= mid && lt(m, key) implies lt(#[trigger] self.list@[i].key, key) by { if i < mid { assert(lt(self.list@[i].key, self.list@[mid as int].key)); } }
  }
//@ fn merge_iter
  requires total::<Num>(), copies::<T>(), a.inv(), !a.inf(), b.inv(), !b.inf(), sorted(iseq(a)), sorted(iseq(b)), compat(iseq(a), iseq(b))
  ensures is_merge(iseq(a), iseq(b), res@)
//@ attr #[verifier::loop_isolation(false)]
//@ start
  let ghost (la, lb, a0, b0) = (iseq(a), iseq(b), a, b);
  let ghost mut ia: int = 0;
  let ghost mut ib: int = 0;
//@ after let mut next_a
  proof { itok_first(a0, a, next_a); }
//@ after let mut next_b
  proof { itok_first(b0, b, next_b); minv_init(la, lb, res@); }
//@ loop 0
  invariant
    itok(next_a, a, la, ia), itok(next_b, b, lb, ib), minv(la, lb, ia, ib, res@),
  decreases la.len() - ia + lb.len() - ib
//@ loop 0 start
  let ghost (na, nb, sa, sb, r0) = (next_a, next_b, a, b, res@);
  proof {
    itok_head(na, sa, la, ia); itok_head(nb, sb, lb, ib);
    if na is Some && nb is Some { heads_compat(la, lb, ia, ib, r0); cmp_facts(la[ia].key, lb[ib].key); }
    if na is None && nb is None { merge_done(la, lb, r0); }
  }
//@ loop 0 end
  proof {
    let e = res@.last();
    let ja = if ia < la.len() && e.key == la[ia].key { ia + 1 } else { ia };
    let jb = if ib < lb.len() && e.key == lb[ib].key { ib + 1 } else { ib };
    assert(res@ =~= r0.push(e));
    merge_step(la, lb, ia, ib, r0, e, ja, jb);
    if ja > ia { itok_next(na, sa, next_a, a, la, ia); }
    if jb > ib { itok_next(nb, sb, next_b, b, lb, ib); }
    ia = ja; ib = jb;
  }
//@ fn merge
  requires total::<Num>(), copies::<T>(), sorted(a.list@), sorted(b.list@), compat(a.list@, b.list@)
  ensures is_merge(a.list@, b.list@, res.list@)
//@ fn merge_list
  requires total::<Num>(), copies::<T>(), all_sorted(list@), all_compat(list@)
  ensures sorted(res.list@), forall|k: Num| #[trigger] look(res.list@, k) == mlook(list@, list@.len() as int, k)
//@ start
  proof { reveal(sorted); }
//@ loop 0
  total::<Num>(), copies::<T>(), all_sorted(list@), all_compat(list@), !vst0.inf(), vst0.n() == list@.len(), vk0 <= vst0.n(),
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == list@[i],
  sorted(result.list@), forall|k: Num| #[trigger] look(result.list@, k) == mlook(list@, vk0, k),
//@ loop 0 start
  let ghost r0 = result.list@;
  proof { assert(x == list@[vk0 - 1]); reveal(compat); reveal(is_merge); lists_step(list@, vk0 - 1, r0); }
//@ fn previous_char
  ensures match res { Some(p) => p as u32 == prev(c as u32), None => c as u32 == 0 }
//@ fn from_range
  requires range.s as u32 <= range.e as u32
  ensures sorted(res.list@), forall|c: char| #[trigger] getv(res.list@, c) == (if range.s as u32 <= c as u32 <= range.e as u32 { State { value: Some(value) } } else { State { value: None } })
//@ tailres
  proof { one_range(vres.list@, range.s, range.e, value); }
//@ fn from_one
  ensures sorted(res.list@), forall|k: char| #[trigger] getv(res.list@, k) == (if k == c { State { value: Some(value) } } else { State { value: None } })
//@ tailres
  proof { one_range(vres.list@, c, c, value); }
//@ raw
pub open spec fn prev(c: u32) -> int { if c == 0xe000 { 0xd7ff } else { c - 1 } }
pub open spec fn getv<N: PartialOrd, T: StaticRefDefault>(l: Seq<Entry<N, T>>, k: N) -> T { match look(l, k) { Some(v) => v, None => T::sdef() } }
pub open spec fn is_one<T>(l: Seq<Entry<char, State<T>>>, s: char, e: char, v: T) -> bool {
    if s as u32 == 0 { l.len() == 1 && l[0].key == e && l[0].value == (State { value: Some(v) }) }
    else { l.len() == 2 && l[0].key as u32 == prev(s as u32) && l[0].value == (State { value: None::<T> }) && l[1].key == e && l[1].value == (State { value: Some(v) }) }
}
pub open spec fn one_ok<T>(l: Seq<Entry<char, State<T>>>, s: char, e: char, v: T) -> bool {
    sorted(l) && forall|c: char| #[trigger] getv(l, c) == (if s as u32 <= c as u32 <= e as u32 { State { value: Some(v) } } else { State { value: None } })
}
pub proof fn one_range<T>(l: Seq<Entry<char, State<T>>>, s: char, e: char, v: T) requires is_one(l, s, e, v), s as u32 <= e as u32 ensures one_ok(l, s, e, v) {
    total_char(); reveal(sorted); reveal(total);
    assert forall|c: char| #[trigger] getv(l, c) == (if s as u32 <= c as u32 <= e as u32 { State { value: Some(v) } } else { State { value: None } }) by {
        pos_has(l, c);
        assert(c.partial_cmp_spec(&l[0].key) is Some); assert(l[0].key.partial_cmp_spec(&c) is Some);
        if l.len() == 2 { assert(c.partial_cmp_spec(&l[1].key) is Some); assert(l[1].key.partial_cmp_spec(&c) is Some); }
    }
}
pub open spec fn all_sorted<N: PartialOrd, T>(l: Seq<RangeMap<N, T>>) -> bool { forall|i: int| 0 <= i < l.len() ==> sorted(#[trigger] l[i].list@) }
// what the first n maps give together
pub open spec fn mlook<N: PartialOrd, T: Union>(l: Seq<RangeMap<N, T>>, n: int, k: N) -> Option<T> decreases n {
    if n <= 0 { None } else { comb(look(l[n - 1].list@, k), mlook(l, n - 1, k)) }
}
pub open spec fn all_compat<N: PartialOrd, T: Union>(l: Seq<RangeMap<N, T>>) -> bool {
    forall|n: int, k: N| 0 < n <= l.len() ==> match (look(l[n - 1].list@, k), #[trigger] mlook(l, n - 1, k)) { (Some(x), Some(y)) => x.upre(y), _ => true }
}
pub proof fn lists_step<N: PartialOrd, T: Union>(l: Seq<RangeMap<N, T>>, n: int, r: Seq<Entry<N, T>>)
  requires all_compat(l), 0 <= n < l.len(), forall|k: N| #[trigger] look(r, k) == mlook(l, n, k)
  ensures compat(l[n].list@, r)
{ reveal(compat); assert forall|k: N| match (#[trigger] look(l[n].list@, k), look(r, k)) { (Some(x), Some(y)) => x.upre(y), _ => true } by { assert(look(r, k) == mlook(l, n + 1 - 1, k)); } }
pub proof fn cmp_facts<N: PartialOrd>(x: N, y: N) requires total::<N>() ensures N::obeys_partial_cmp_spec(), x.partial_cmp_spec(&y) == (if x == y { Some(Ordering::Equal) } else if lt(x, y) { Some(Ordering::Less) } else { Some(Ordering::Greater) }), lt(y, x) == (x.partial_cmp_spec(&y) == Some(Ordering::Greater)) { reveal(total); }
pub proof fn minv_init<N: PartialOrd, T: Union>(a: Seq<Entry<N, T>>, b: Seq<Entry<N, T>>, r: Seq<Entry<N, T>>) requires r.len() == 0 ensures minv(a, b, 0, 0, r) { reveal(minv); reveal(sorted); }
pub open spec fn stepped<N: PartialOrd, T, I: VIter<Item = Entry<N, T>>>(o: I, i: I, r: Option<Entry<N, T>>) -> bool {
    i.inv() && i.inf() == o.inf() && match r {
        Some(x) => (o.inf() || o.n() > 0) && x == o.at(0) && (!o.inf() ==> i.n() == o.n() - 1) && (forall|j: int| j >= 0 ==> #[trigger] i.at(j) == o.at(j + 1)),
        None => !o.inf() && o.n() == 0 && i.n() == 0,
    }
}
pub proof fn itok_first<N: PartialOrd, T, I: VIter<Item = Entry<N, T>>>(o: I, i: I, r: Option<Entry<N, T>>) requires o.inv(), !o.inf(), stepped(o, i, r)
  ensures itok(r, i, iseq(o), 0)
{ reveal(itok); i.n_nonneg(); o.n_nonneg(); assert(rem(r, i) =~= iseq(o).skip(0)); }
pub proof fn itok_next<N: PartialOrd, T, I: VIter<Item = Entry<N, T>>>(h: Option<Entry<N, T>>, o: I, r: Option<Entry<N, T>>, i: I, l: Seq<Entry<N, T>>, k: int)
  requires itok(h, o, l, k), h is Some, stepped(o, i, r)
  ensures itok(r, i, l, k + 1)
{ reveal(itok); i.n_nonneg(); assert(iseq(o) =~= rem(h, o).skip(1)); assert(rem(r, i) =~= iseq(o)); assert(l.skip(k + 1) =~= l.skip(k).skip(1)); assert(rem(h, o).len() == l.len() - k); }
pub proof fn itok_head<N: PartialOrd, T, I: VIter<Item = Entry<N, T>>>(h: Option<Entry<N, T>>, i: I, l: Seq<Entry<N, T>>, k: int) requires itok(h, i, l, k)
  ensures 0 <= k <= l.len(), i.inv(), (h is Some) == (k < l.len()), h is Some ==> h == Some(l[k])
{
    reveal(itok);
    let r = rem(h, i);
    assert(r.len() == l.len() - k);
    if h is Some { assert(r[0] == l.skip(k)[0]); }
}
