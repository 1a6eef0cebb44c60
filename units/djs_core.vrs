//@ include djs_spec.vrs
//@ raw
// ---------------------------------------------------------------------------------------------
// HashMap with values as keys: two values are equal when their words are
// ---------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
#[verifier::reject_recursive_types(V)]
pub struct AnyMap<D: Dealloc, V> { d: PhantomData<D>, v: PhantomData<V> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
#[verifier::reject_recursive_types(V)]
pub struct AnyMapIter<'a, D: Dealloc, V> { d: PhantomData<&'a D>, v: PhantomData<V> }
impl<'a, D: Dealloc, V> AnyMapIter<'a, D, V> {
    pub uninterp spec fn view(self) -> Map<u64, V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a Any<D>, &'a V)>) ensures match r { Some(p) => old(self)@.dom().contains(p.0.word()), None => old(self)@.dom().len() == 0 } { unimplemented!() }
}
impl<D: Dealloc, V> AnyMap<D, V> {
    pub uninterp spec fn view(self) -> Map<u64, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<u64, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Any<D>) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(k.word()) && *v == self@[k.word()], None => !self@.dom().contains(k.word()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Any<D>) -> (r: Option<&mut V>) ensures match r { Some(v) => old(self)@.dom().contains(k.word()) && *v == old(self)@[k.word()] && final(self)@ == old(self)@.insert(k.word(), *final(v)), None => !old(self)@.dom().contains(k.word()) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Any<D>) -> (r: bool) ensures r == self@.dom().contains(k.word()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Any<D>, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.word(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Any<D>) -> (r: Option<V>) ensures r is Some == old(self)@.dom().contains(k.word()), final(self)@ == old(self)@.remove(k.word()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn viter(&self) -> (r: AnyMapIter<'_, D, V>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: FnMut(&Any<D>, &mut V) -> bool>(&mut self, f: F)
        requires forall|k: &Any<D>, v: &mut V| #[trigger] f.requires((k, v))
        ensures forall|p: spec_fn(V) -> bool| #[trigger] keeps(f, p) ==> (forall|c: u64| #[trigger] final(self)@.dom().contains(c) <==> old(self)@.dom().contains(c) && p(old(self)@[c])) && (forall|c: u64| #[trigger] final(self)@.dom().contains(c) ==> final(self)@[c] == old(self)@[c])
    { unimplemented!() }
}
#[verifier::prophetic]
pub open spec fn keeps<D: Dealloc, V, F: FnMut(&Any<D>, &mut V) -> bool>(f: F, p: spec_fn(V) -> bool) -> bool {
    forall|k: &Any<D>, v: &mut V, r: bool| #[trigger] f.ensures((k, v), r) ==> r == p(*v) && *final(v) == *v
}
//@ file nanvm-lib/src/serializer/to_djs.rs
//@ gsub enum Seen => pub enum Seen
//@ gsub struct ConstTracker => #[verifier::reject_recursive_types(D)] pub struct ConstTracker
//@ gsub HashMap<Any<D>, Seen> => AnyMap<D, Seen>
//@ gsub HashMap<Any<D>, usize> => AnyMap<D, usize>
//@ gsub HashMap::<Any<D>, usize>::new() => AnyMap::<D, usize>::new()
//@ gsub HashMap::new() => AnyMap::new()
//@ gsub &mut (impl WriteJson + ?Sized) => &mut Out
//@ gsub (k as f64) => vf64(k)
//@ item enum Seen
//@ item struct ConstTracker
//@ raw
// derive(PartialEq)
impl PartialEq for Seen {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Seen {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub open spec fn sat(n: nat) -> nat { if n >= 2 { 2 } else { n } }
pub open spec fn times(m: Map<u64, Seen>, c: u64) -> nat { if !m.dom().contains(c) { 0 } else if m[c] is Once { 1 } else { 2 } }
// the arrays and objects in s were visited
pub open spec fn tracked(m: Map<u64, Seen>, n: Map<u64, Seen>, s: Seq<u64>, x: Seq<u64>) -> bool {
    &&& n.dom() == m.dom().union(s.to_set())
    &&& forall|c: u64| compound(c) ==> #[trigger] times(n, c) == sat(times(m, c) + tot(s, c) + occ(x, c))
}
pub proof fn tot_add(a: Seq<u64>, b: Seq<u64>, c: u64) ensures tot(a + b, c) == tot(a, c) + tot(b, c) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); tot_add(a, b.drop_last(), c); }
}
pub proof fn set_add(a: Seq<u64>, b: Seq<u64>) ensures (a + b).to_set() =~= a.to_set().union(b.to_set()) {
    assert forall|c: u64| (a + b).to_set().contains(c) <==> a.to_set().union(b.to_set()).contains(c) by {
        if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert((a + b)[i] == c); }
        if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert((a + b)[a.len() + i] == c); }
        if (a + b).contains(c) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == c; if i < a.len() { assert(a[i] == c); } else { assert(b[i - a.len()] == c); } }
    }
}
// the k-th part of w was visited too
pub proof fn track_step(t0: Map<u64, Seen>, t1: Map<u64, Seen>, t2: Map<u64, Seen>, w: u64, k: int)
    requires 0 < k <= kids(w).len(), tracked(t0, t1, dfsk(w, (k - 1) as nat, t0.dom()), kids(w).take(k - 1)), tracked(t1, t2, dfs(kids(w)[k - 1], t1.dom()), seq![kids(w)[k - 1]])
    ensures tracked(t0, t2, dfsk(w, k as nat, t0.dom()), kids(w).take(k))
{
    broadcast use ax_rank;
    let a = dfsk(w, (k - 1) as nat, t0.dom()); let x = kids(w)[k - 1]; let b = dfs(x, t1.dom());
    assert(dfsk(w, k as nat, t0.dom()) == a + b);
    set_add(a, b);
    assert(t2.dom() =~= t0.dom().union((a + b).to_set()));
    assert(kids(w).take(k).drop_last() =~= kids(w).take(k - 1)); assert(seq![x].drop_last() =~= Seq::<u64>::empty());
    assert forall|c: u64| compound(c) implies #[trigger] times(t2, c) == sat(times(t0, c) + tot(a + b, c) + occ(kids(w).take(k), c)) by { tot_add(a, b, c); assert(times(t1, c) <= 2); reveal_with_fuel(occ, 2); }
}
pub proof fn track_none(t: Map<u64, Seen>, w: u64) ensures tracked(t, t, dfsk(w, 0, t.dom()), kids(w).take(0)) {
    assert(t.dom().union(Seq::<u64>::empty().to_set()) =~= t.dom());
}
pub proof fn track_base(t0: Map<u64, Seen>, w: u64)
    ensures !compound(w) ==> tracked(t0, t0, dfs(w, t0.dom()), seq![w]),
        compound(w) && t0.dom().contains(w) ==> tracked(t0, t0.insert(w, Seen::Repeatedly), dfs(w, t0.dom()), seq![w]),
{
    let e = Seq::<u64>::empty();
    assert(seq![w].drop_last() =~= e); assert(t0.dom().union(e.to_set()) =~= t0.dom()); reveal_with_fuel(occ, 2);
    if compound(w) && t0.dom().contains(w) { assert(t0.insert(w, Seen::Repeatedly).dom() =~= t0.dom()); }
}
pub proof fn track_first(t0: Map<u64, Seen>, t2: Map<u64, Seen>, w: u64)
    requires compound(w), !t0.dom().contains(w), tracked(t0.insert(w, Seen::Once), t2, dfsk(w, kids(w).len(), t0.dom().insert(w)), kids(w))
    ensures tracked(t0, t2, dfs(w, t0.dom()), seq![w])
{
    let t1 = t0.insert(w, Seen::Once); let b = dfsk(w, kids(w).len(), t0.dom().insert(w)); let a = seq![w];
    assert(t1.dom() =~= t0.dom().insert(w));
    set_add(a, b);
    assert(a.to_set() =~= set![w]) by { assert(a[0] == w); }
    assert(t2.dom() =~= t0.dom().union((a + b).to_set()));
    assert(a.drop_last() =~= Seq::<u64>::empty());
    assert forall|c: u64| compound(c) implies #[trigger] times(t2, c) == sat(times(t0, c) + tot(a + b, c) + occ(seq![w], c)) by { tot_add(a, b, c); reveal_with_fuel(occ, 2); reveal_with_fuel(tot, 2); assert(times(t1, c) <= 2); }
}
#[verifier::external_body]
fn vf64(n: usize) -> f64 { n as f64 }
//@ fn ConstTracker::is_visited
  ensures res == old(self).visited@.dom().contains(any.word()), final(self).visited@ == old(self).visited@.insert(any.word(), if res { Seen::Repeatedly } else { Seen::Once })
//@ fn ConstTracker::track_consts_for_any
  ensures res is Ok, tracked(old(self).visited@, final(self).visited@, dfs(any.word(), old(self).visited@.dom()), seq![any.word()])
  decreases rank(any.word()), 3nat
//@ sub any.for_each::<fmt::Error> => any.for_each_t
//@ start
  let ghost t0 = self.visited@; let ghost w = any.word();
  proof { broadcast use ax_rank; track_base(t0, w); }
//@ tailres
  proof { if compound(w) && !t0.dom().contains(w) { track_first(t0, self.visited@, w); } }
//@ unclosure 0 self
fn track_child(&mut self, vk: Any<D>, v: &Any<D>) -> (res: fmt::Result)
  ensures res is Ok, tracked(old(self).visited@, final(self).visited@, dfs(v.word(), old(self).visited@.dom()), seq![v.word()])
  decreases rank(v.word()), 4nat
//@ file nanvm-lib/src/js/any.rs
//@ fn Any::for_each
  ensures res is Ok, tracked(old(t).visited@, final(t).visited@, dfsk(self.word(), kids(self.word()).len(), old(t).visited@.dom()), kids(self.word()))
  decreases rank(self.word()), 1nat
//@ sub fn for_each<E> => fn for_each_t
//@ sub mut f: impl FnMut(Any<D>, &Any<D>) -> Result<(), E>, => t: &mut ConstTracker<D>,
//@ sub Result<(), E> => fmt::Result
//@ sub f(k => t.track_child(k
//@ sub f((k as f64) => t.track_child(vf64(k)
//@ start
  let ghost t0 = t.visited@; let ghost w = self.word(); broadcast use ax_rank; proof { track_none(t0, w); assert(kids(w).take(0) =~= Seq::<u64>::empty()); }
//@ loop 0
  !vst0.inf(), vst0.n() == kids(w).len(), vk0 <= kids(w).len(), forall|i: int| 0 <= i < kids(w).len() ==> (#[trigger] vst0.at(i)).1.word() == kids(w)[i], w == self.word(),
  tracked(t0, t.visited@, dfsk(w, vk0 as nat, t0.dom()), kids(w).take(vk0)),
//@ loop 0 start
  broadcast use ax_rank; let ghost t1 = t.visited@;
//@ loop 0 end
  proof { track_step(t0, t1, t.visited@, w, vk0); }
//@ loop 0 after
  proof { assert(kids(w).take(vk0) =~= kids(w)); }
//@ loop 1
  !vst1.inf(), vst1.n() == kids(w).len(), vk1 <= kids(w).len(), forall|i: int| 0 <= i < kids(w).len() ==> (#[trigger] vst1.at(i)).1.word() == kids(w)[i], w == self.word(),
  tracked(t0, t.visited@, dfsk(w, vk1 as nat, t0.dom()), kids(w).take(vk1)),
//@ loop 1 start
  broadcast use ax_rank; let ghost t1 = t.visited@;
//@ loop 1 end
  proof { track_step(t0, t1, t.visited@, w, vk1); }
//@ loop 1 after
  proof { assert(kids(w).take(vk1) =~= kids(w)); }
//@ raw
// ---------------------------------------------------------------------------------------------
// The visited values are the reachable ones; the order of the definitions
// ---------------------------------------------------------------------------------------------
pub open spec fn tset(s: Set<u64>, d: Seq<u64>, c: u64) -> bool { s.contains(c) || d.contains(c) }
pub proof fn reach_kid(b: u64, i: int, c: u64) requires 0 <= i < kids(b).len(), reach(kids(b)[i], c) ensures reach(b, c) { broadcast use ax_rank; assert(rank(kids(b)[i]) < rank(b)); }
pub proof fn reach_rank(b: u64, c: u64) requires reach(b, c) ensures b == c || rank(c) < rank(b) decreases rank(b) {
    if b != c { let i = choose|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) && reach(kids(b)[i], c); reach_rank(kids(b)[i], c); }
}
pub proof fn cat_has(a: Seq<u64>, b: Seq<u64>) ensures forall|c: u64| #[trigger] (a + b).contains(c) <==> a.contains(c) || b.contains(c) {
    set_add(a, b);
    assert forall|c: u64| #[trigger] (a + b).contains(c) <==> a.contains(c) || b.contains(c) by { assert((a + b).to_set().contains(c) <==> a.to_set().union(b.to_set()).contains(c)); }
}
pub proof fn cat_once(a: Seq<u64>, b: Seq<u64>) requires a.no_duplicates(), b.no_duplicates(), forall|c: u64| a.contains(c) ==> !b.contains(c) ensures (a + b).no_duplicates() {
    let s = a + b;
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if i < a.len() && j >= a.len() { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
        if j < a.len() && i >= a.len() { assert(a.contains(a[j])); assert(b.contains(b[i - a.len()])); }
    }
}
// d: visited from b, s: visited before
pub open spec fn visit_ok(b: u64, s: Set<u64>, d: Seq<u64>) -> bool {
    &&& d.no_duplicates()
    &&& forall|c: u64| #[trigger] d.contains(c) ==> compound(c) && !s.contains(c) && reach(b, c)
    &&& forall|p: u64, i: int| d.contains(p) && 0 <= i < kids(p).len() && compound(#[trigger] kids(p)[i]) ==> tset(s, d, kids(p)[i])
}
pub proof fn dfs_ok(b: u64, s: Set<u64>) ensures visit_ok(b, s, dfs(b, s)), compound(b) ==> tset(s, dfs(b, s), b) decreases rank(b), kids(b).len() + 1 {
    if compound(b) && !s.contains(b) {
        let n = kids(b).len(); let t = s.insert(b); let k = dfsk(b, n, t); let a = seq![b];
        dfsk_ok(b, n, t); cat_has(a, k);
        assert(forall|c: u64| #[trigger] a.contains(c) ==> c == b) ; assert(a[0] == b); assert(a.contains(b));
        cat_once(a, k);
        let d = a + k;
        assert forall|p: u64, i: int| d.contains(p) && 0 <= i < kids(p).len() && compound(#[trigger] kids(p)[i]) implies tset(s, d, kids(p)[i]) by { assert(d.contains(b)); if p != b { assert(k.contains(p)); } assert(tset(t, k, kids(p)[i])); }
    }
}
pub proof fn dfsk_ok(b: u64, n: nat, s: Set<u64>) requires n <= kids(b).len() ensures visit_ok(b, s, dfsk(b, n, s)), forall|i: int| 0 <= i < n && compound(#[trigger] kids(b)[i]) ==> tset(s, dfsk(b, n, s), kids(b)[i]) decreases rank(b), n {
    broadcast use ax_rank;
    if n > 0 {
        let a = dfsk(b, (n - 1) as nat, s); let x = kids(b)[n - 1]; let t = s.union(a.to_set()); let e = dfs(x, t); let d = a + e;
        assert(rank(x) < rank(b));
        dfsk_ok(b, (n - 1) as nat, s); dfs_ok(x, t); cat_has(a, e);
        assert(forall|c: u64| #[trigger] a.to_set().contains(c) <==> a.contains(c));
        assert forall|c: u64| #[trigger] a.contains(c) implies !e.contains(c) by { assert(t.contains(c)); }
        cat_once(a, e);
        assert(dfsk(b, n, s) == d);
        assert forall|c: u64| #[trigger] d.contains(c) implies compound(c) && !s.contains(c) && reach(b, c) by { if !a.contains(c) { assert(e.contains(c)); assert(!t.contains(c)); reach_kid(b, n - 1, c); } }
        assert forall|p: u64, i: int| d.contains(p) && 0 <= i < kids(p).len() && compound(#[trigger] kids(p)[i]) implies tset(s, d, kids(p)[i]) by { if a.contains(p) { assert(tset(s, a, kids(p)[i])); } else { assert(e.contains(p)); assert(tset(t, e, kids(p)[i])); } }
        assert forall|i: int| 0 <= i < n && compound(#[trigger] kids(b)[i]) implies tset(s, d, kids(b)[i]) by { if i < n - 1 { assert(tset(s, a, kids(b)[i])); } else { assert(tset(t, e, x)); } }
    }
}
pub proof fn closed_reach(d: Seq<u64>, p: u64, c: u64) requires visit_ok(p, Set::empty(), d) || true, d.contains(p), reach(p, c), compound(c),
    forall|q: u64, i: int| d.contains(q) && 0 <= i < kids(q).len() && compound(#[trigger] kids(q)[i]) ==> d.contains(kids(q)[i])
    ensures d.contains(c) decreases rank(p)
{
    if p != c {
        let i = choose|i: int| 0 <= i < kids(p).len() && rank(#[trigger] kids(p)[i]) < rank(p) && reach(kids(p)[i], c);
        let k = kids(p)[i];
        if k != c { let j = choose|j: int| 0 <= j < kids(k).len() && rank(#[trigger] kids(k)[j]) < rank(k) && reach(kids(k)[j], c); assert(compound(k)); closed_reach(d, k, c); }
    }
}
// the arrays and objects in b are all there, each once
pub proof fn compounds_are(b: u64) ensures compounds(b).no_duplicates(), forall|c: u64| #[trigger] compounds(b).contains(c) <==> compound(c) && reach(b, c) {
    dfs_ok(b, Set::empty());
    let d = compounds(b);
    assert forall|c: u64| #[trigger] d.contains(c) <==> compound(c) && reach(b, c) by {
        if compound(c) && reach(b, c) {
            if b != c { let i = choose|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) && reach(kids(b)[i], c); assert(compound(b)); }
            assert(tset(Set::empty(), d, b));
            assert forall|q: u64, i: int| d.contains(q) && 0 <= i < kids(q).len() && compound(#[trigger] kids(q)[i]) implies d.contains(kids(q)[i]) by { assert(tset(Set::empty(), d, kids(q)[i])); }
            closed_reach(d, b, c);
        }
    }
}
pub proof fn plain_reach(b: u64, c: u64) requires plain(b), reach(b, c) ensures plain(c) decreases rank(b) {
    if b != c { let i = choose|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) && reach(kids(b)[i], c); plain_kids(b); plain_reach(kids(b)[i], c); }
}
// what is in s and below d[i] is before d[i]
pub open spec fn deps(d: Seq<u64>, s: Set<u64>) -> bool { forall|i: int, c: u64| 0 <= i < d.len() && s.contains(c) && c != d[i] && #[trigger] reach(d[i], c) ==> d.take(i).contains(c) }
pub open spec fn defs_ok(d: Seq<u64>, s: Set<u64>) -> bool { d.no_duplicates() && (forall|c: u64| #[trigger] d.contains(c) ==> s.contains(c)) && deps(d, s) }
pub proof fn defs_add(a: Seq<u64>, e: Seq<u64>, s: Set<u64>) requires defs_ok(a, s), defs_ok(e, s.difference(a.to_set())) ensures defs_ok(a + e, s) {
    let d = a + e; let t = s.difference(a.to_set());
    cat_has(a, e);
    assert(forall|c: u64| #[trigger] a.to_set().contains(c) <==> a.contains(c));
    assert forall|c: u64| #[trigger] a.contains(c) implies !e.contains(c) by { if e.contains(c) { assert(t.contains(c)); } }
    cat_once(a, e);
    assert forall|c: u64| #[trigger] d.contains(c) implies s.contains(c) by { if !a.contains(c) { assert(e.contains(c)); assert(t.contains(c)); } }
    assert forall|i: int, c: u64| 0 <= i < d.len() && s.contains(c) && c != d[i] && #[trigger] reach(d[i], c) implies d.take(i).contains(c) by {
        if i < a.len() { assert(d[i] == a[i]); assert(a.take(i).contains(c)); assert(d.take(i) =~= a.take(i)); }
        else {
            let j = i - a.len(); assert(d[i] == e[j]); assert(d.take(i) =~= a + e.take(j)); cat_has(a, e.take(j));
            if !a.contains(c) { assert(t.contains(c)); assert(e.take(j).contains(c)); }
        }
    }
}
pub proof fn post_ok(b: u64, s: Set<u64>) requires forall|c: u64| #[trigger] s.contains(c) ==> compound(c)
    ensures defs_ok(post(b, s), s), forall|c: u64| s.contains(c) && #[trigger] reach(b, c) ==> post(b, s).contains(c)
    decreases rank(b), kids(b).len() + 1
{
    let d = post(b, s);
    if compound(b) {
        let n = kids(b).len(); let k = postk(b, n, s);
        postk_ok(b, n, s);
        assert forall|c: u64| s.contains(c) && #[trigger] reach(b, c) && c != b implies k.contains(c) by {
            let i = choose|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) && reach(kids(b)[i], c); assert(below(b, n, c));
        }
        if s.contains(b) && !k.contains(b) {
            assert(d == k.push(b)); assert(d.last() == b); assert(d.contains(b)) by { assert(d[k.len() as int] == b); }
            assert forall|c: u64| #[trigger] d.contains(c) <==> k.contains(c) || c == b by { if k.contains(c) { let i = choose|i: int| 0 <= i < k.len() && k[i] == c; assert(d[i] == c); } if d.contains(c) && c != b { let i = choose|i: int| 0 <= i < d.len() && d[i] == c; assert(k[i] == c); } }
            assert forall|i: int, c: u64| 0 <= i < d.len() && s.contains(c) && c != d[i] && #[trigger] reach(d[i], c) implies d.take(i).contains(c) by {
                assert(d.take(i) =~= k.take(i)); if i < k.len() { assert(d[i] == k[i]); assert(k.take(i).contains(c)); } else { assert(k.take(i) =~= k); }
            }
        }
    } else {
        assert forall|c: u64| s.contains(c) && #[trigger] reach(b, c) implies d.contains(c) by { assert(kids(b).len() == 0); }
    }
}
pub open spec fn below(b: u64, n: nat, c: u64) -> bool { exists|i: int| 0 <= i < n && reach(#[trigger] kids(b)[i], c) }
pub proof fn postk_ok(b: u64, n: nat, s: Set<u64>) requires n <= kids(b).len(), forall|c: u64| #[trigger] s.contains(c) ==> compound(c)
    ensures defs_ok(postk(b, n, s), s), forall|c: u64| s.contains(c) && #[trigger] below(b, n, c) ==> postk(b, n, s).contains(c)
    decreases rank(b), n
{
    broadcast use ax_rank;
    if n > 0 {
        let a = postk(b, (n - 1) as nat, s); let x = kids(b)[n - 1]; let t = s.difference(a.to_set()); let e = post(x, t);
        assert(rank(x) < rank(b));
        postk_ok(b, (n - 1) as nat, s); post_ok(x, t); defs_add(a, e, s); cat_has(a, e);
        assert(postk(b, n, s) == a + e);
        assert forall|c: u64| s.contains(c) && #[trigger] below(b, n, c) implies (a + e).contains(c) by {
            let i = choose|i: int| 0 <= i < n && reach(#[trigger] kids(b)[i], c);
            if i < n - 1 { assert(below(b, (n - 1) as nat, c)); } else if !a.contains(c) { assert(t.contains(c)); assert(reach(x, c)); }
        }
    }
}
pub proof fn ext_add(r: Refs, a: Seq<u64>, b: Seq<u64>) ensures ext(r, a + b) == ext(ext(r, a), b), defs_from(r, a + b) == defs_from(r, a) + defs_from(ext(r, a), b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(defs_from(r, a) + Seq::<char>::empty() =~= defs_from(r, a)); }
    else { broadcast use assoc; assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); ext_add(r, a, b.drop_last()); }
}
pub proof fn index_is(s: Seq<u64>) requires s.no_duplicates() ensures index(s).dom() =~= s.to_set(), index(s).dom().len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] index(s)[s[i]] == i decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_last(); let l = s.last(); let q = index(t);
        index_is(t);
        assert(!t.contains(l)) by { if t.contains(l) { let i = choose|i: int| 0 <= i < t.len() && t[i] == l; assert(s[i] == s[s.len() - 1]); } }
        assert(index(s) == q.insert(l, q.dom().len()));
        assert(t.to_set().contains(l) == t.contains(l));
        assert(index(s).dom() =~= q.dom().insert(l));
        assert forall|c: u64| s.to_set().contains(c) <==> index(s).dom().contains(c) by {
            assert(s.to_set().contains(c) <==> s.contains(c)); assert(t.to_set().contains(c) <==> t.contains(c));
            if s.contains(c) && c != l { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i] == c); }
            if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i] == c); }
            if c == l { assert(s[s.len() - 1] == c); }
        }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] index(s)[s[i]] == i by { if i < t.len() { assert(s[i] == t[i]); assert(t.contains(t[i])); assert(index(t)[t[i]] == i); } }
    } else { assert(index(s).dom() =~= s.to_set()); }
}
// the same constants for the parts of b
pub open spec fn agree(b: u64, r: Refs, q: Refs) -> bool { forall|c: u64| c != b && compound(c) && #[trigger] reach(b, c) ==> r.dom().contains(c) == q.dom().contains(c) && (r.dom().contains(c) ==> r[c] == q[c]) }
pub proof fn body_agree(b: u64, r: Refs, q: Refs) requires agree(b, r, q) ensures body(b, r) == body(b, q) decreases rank(b) {
    broadcast use ax_rank;
    assert forall|i: int| 0 <= i < kids(b).len() implies txt(#[trigger] kids(b)[i], r) == txt(kids(b)[i], q) by {
        let k = kids(b)[i];
        assert(rank(k) < rank(b));
        assert forall|c: u64| #[trigger] reach(k, c) implies reach(b, c) && c != b by { reach_kid(b, i, c); reach_rank(k, c); }
        assert(reach(k, k));
        body_agree(k, r, q);
    }
    assert(items(b, r) =~= items(b, q)) by {
        match node(b) { Node::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies items(b, r)[i] == items(b, q)[i] by { assert(kids(b)[i] == a[i]); } }
            Node::Obj(o) => { assert forall|i: int| 0 <= i < o.len() implies items(b, r)[i] == items(b, q)[i] by { assert(kids(b)[i] == o[i].1); } } _ => {} }
    }
}
pub proof fn defs_are(s: Seq<u64>, t: Set<u64>, n: nat) requires defs_ok(s, t), n <= s.len(), forall|c: u64| #[trigger] s.contains(c) <==> t.contains(c) ensures defs_from(Map::empty(), s.take(n as int)) == defs(s, n) decreases n {
    if n > 0 {
        let e = Map::<u64, nat>::empty(); let u = s.take(n as int); let v = s.take(n - 1); let b = s[n - 1];
        defs_are(s, t, (n - 1) as nat);
        assert(u.drop_last() =~= v); assert(u.last() == b);
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(s[i] != s[j]); }
        index_is(v); index_is(s);
        assert(!v.contains(b)) by { if v.contains(b) { let i = choose|i: int| 0 <= i < v.len() && v[i] == b; assert(s[i] == s[n - 1]); } }
        assert(v.to_set().contains(b) == v.contains(b));
        let q = index(v); let r = index(s);
        assert forall|c: u64| c != b && compound(c) && #[trigger] reach(b, c) implies r.dom().contains(c) == q.dom().contains(c) && (r.dom().contains(c) ==> r[c] == q[c]) by {
            assert(s.to_set().contains(c) == s.contains(c)); assert(v.to_set().contains(c) == v.contains(c));
            if s.contains(c) { assert(t.contains(c)); assert(s.take(n - 1).contains(c)); let i = choose|i: int| 0 <= i < v.len() && v[i] == c; assert(q[v[i]] == i); assert(s[i] == c); assert(r[s[i]] == i); }
            if v.contains(c) { let i = choose|i: int| 0 <= i < v.len() && v[i] == c; assert(s[i] == c); }
        }
        body_agree(b, q, r);
        assert(txt(b, q) == body(b, q));
    } else { assert(s.take(0) =~= Seq::<u64>::empty()); }
}
pub proof fn order_is(b: u64, s: Seq<u64>, t: Set<u64>) requires defs_ok(s, t), forall|c: u64| #[trigger] s.contains(c) <==> t.contains(c), forall|c: u64| #[trigger] t.contains(c) <==> shared(b, c)
    ensures order_of(b, s), defs_from(Map::empty(), s) == defs(s, s.len()), index(s) == ext(Map::empty(), s)
{
    reveal(order_of);
    index_is(s);
    defs_are(s, t, s.len()); assert(s.take(s.len() as int) =~= s);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && #[trigger] reach(s[i], s[j]) implies j < i by {
        assert(s.contains(s[j])); assert(t.contains(s[j])); assert(s.take(i).contains(s[j])); let k = choose|k: int| 0 <= k < i && s.take(i)[k] == s[j]; assert(s[k] == s[j]);
    }
    assert forall|c: u64| #[trigger] s.contains(c) <==> shared(b, c) by { assert(t.contains(c) <==> shared(b, c)); }
}
pub open spec fn nats(m: Map<u64, usize>) -> Refs { m.map_values(|v: usize| v as nat) }
// the constants d were written
pub open spec fn defined(o: Out, n: Out, r: fmt::Result, t0: Set<u64>, t1: Set<u64>, r0: Refs, r1: Refs, d: Seq<u64>) -> bool {
    &&& wrote(o, n, r, defs_from(r0, d))
    &&& r is Ok ==> t1 == t0.difference(d.to_set()) && r1 == ext(r0, d)
}
pub proof fn defined_none(o: Out, t: Set<u64>, r: Refs) ensures defined(o, o, Ok(()), t, t, r, r, Seq::empty()) { assert(o@ + Seq::<char>::empty() =~= o@); assert(t.difference(Seq::<u64>::empty().to_set()) =~= t); }
pub proof fn defined_add(o: Out, n: Out, m: Out, r: fmt::Result, t0: Set<u64>, t1: Set<u64>, t2: Set<u64>, r0: Refs, r1: Refs, r2: Refs, a: Seq<u64>, b: Seq<u64>)
    requires defined(o, n, Ok(()), t0, t1, r0, r1, a), defined(n, m, r, t1, t2, r1, r2, b) ensures defined(o, m, r, t0, t2, r0, r2, a + b) {
    broadcast use assoc;
    ext_add(r0, a, b); set_add(a, b);
    assert(t0.difference(a.to_set()).difference(b.to_set()) =~= t0.difference((a + b).to_set()));
}
pub proof fn txt_plain(b: u64, r: Refs) ensures !compound(b) ==> txt(b, r) == ser(b) { }
//@ file nanvm-lib/src/serializer/to_djs.rs
//@ fn write_with_const_refs
  requires plain(any.word())
  ensures wrote(*old(write_json), *final(write_json), res, txt(any.word(), nats(const_refs@)))
  decreases rank(any.word())
//@ start
  let ghost b0 = any.word(); let ghost m0 = const_refs@;
  broadcast use {assoc, none, ax_rank}; proof { plain_kids(b0); txt_plain(b0, nats(m0)); }
//@ closure 0
|w: &mut Out, vx: &Property<D>| -> (r: fmt::Result) requires plain(vx.1.word()), rank(vx.1.word()) < rank(b0) ensures wrote(*old(w), *final(w), r, member(vx.0@, txt(vx.1.word(), nats(const_refs@))))
=>>
let g = |x: Property<D>| member(x.0@, txt(x.1.word(), nats(m0)));
assert forall|s: Seq<Property<D>>| node(b0) == Node::Obj(#[trigger] props(s)) implies can_write(vc, s) && writes(vc, s, g) && s.map_values(g) == items(b0, nats(m0)) by {
  assert forall|k: int| 0 <= k < s.len() implies plain((#[trigger] s[k]).1.word()) && rank(s[k].1.word()) < rank(b0) by { assert(kids(b0)[k] == s[k].1.word()); }
  assert(s.map_values(g) =~= items(b0, nats(m0)));
}
//@ closure 1
|w: &mut Out, vx: &Any<D>| -> (r: fmt::Result) requires plain(vx.word()), rank(vx.word()) < rank(b0) ensures wrote(*old(w), *final(w), r, txt(vx.word(), nats(const_refs@)))
=>>
let g = |x: Any<D>| txt(x.word(), nats(m0));
assert forall|s: Seq<Any<D>>| node(b0) == Node::Arr(#[trigger] words(s)) implies can_write(vc, s) && writes(vc, s, g) && s.map_values(g) == items(b0, nats(m0)) by {
  assert forall|k: int| 0 <= k < s.len() implies plain((#[trigger] s[k]).word()) && rank(s[k].word()) < rank(b0) by { assert(kids(b0)[k] == s[k].word()); }
  assert(s.map_values(g) =~= items(b0, nats(m0)));
}
//@ raw
// for what is in s and not in k, b last
pub proof fn post_is(b: u64, s: Set<u64>) requires compound(b) ensures ({ let k = postk(b, kids(b).len(), s); post(b, s) == if s.difference(k.to_set()).contains(b) { k + seq![b] } else { k } }) {
    let k = postk(b, kids(b).len(), s); assert(k.push(b) =~= k + seq![b]); assert(k.to_set().contains(b) == k.contains(b));
}
pub proof fn defined_kid(b: u64, i: int, o: Out, n: Out, m: Out, r: fmt::Result, t0: Set<u64>, t1: Set<u64>, t2: Set<u64>, r0: Refs, r1: Refs, r2: Refs)
    requires 0 < i <= kids(b).len(), defined(o, n, Ok(()), t0, t1, r0, r1, postk(b, (i - 1) as nat, t0)), defined(n, m, r, t1, t2, r1, r2, post(kids(b)[i - 1], t1))
    ensures defined(o, m, r, t0, t2, r0, r2, postk(b, i as nat, t0))
{
    broadcast use ax_rank; assert(rank(kids(b)[i - 1]) < rank(b));
    defined_add(o, n, m, r, t0, t1, t2, r0, r1, r2, postk(b, (i - 1) as nat, t0), post(kids(b)[i - 1], t1));
}
pub proof fn nats_insert(m: Map<u64, usize>, k: u64, v: usize) ensures nats(m.insert(k, v)) == nats(m).insert(k, v as nat), nats(m).dom() == m.dom() { assert(nats(m.insert(k, v)) =~= nats(m).insert(k, v as nat)); assert(nats(m).dom() =~= m.dom()); }
pub proof fn defined_last(b: u64, o: Out, n: Out, t0: Set<u64>, t1: Set<u64>, r0: Refs, r1: Refs)
    requires compound(b), defined(o, n, Ok(()), t0, t1, r0, r1, postk(b, kids(b).len(), t0))
    ensures ({
        let d = post(b, t0);
        &&& t1.contains(b) ==> (forall|m: Out, r: fmt::Result| #[trigger] wrote(n, m, r, def(r1.dom().len(), txt(b, r1))) ==> defined(o, m, r, t0, t1.remove(b), r0, r1.insert(b, r1.dom().len()), d))
        &&& !t1.contains(b) ==> t1 == t1.remove(b) && defined(o, n, Ok(()), t0, t1, r0, r1, d)
    })
{
    broadcast use assoc;
    let k = postk(b, kids(b).len(), t0); let d = post(b, t0); let a = seq![b];
    post_is(b, t0);
    if t1.contains(b) {
        assert(d == k + a);
        ext_add(r0, k, a); set_add(k, a);
        assert(a.drop_last() =~= Seq::<u64>::empty()); assert(a.to_set() =~= set![b]) by { assert(a[0] == b); }
        assert(ext(r1, a) == r1.insert(b, r1.dom().len())) by { reveal_with_fuel(ext, 2); }
        assert(defs_from(r1, a) == Seq::<char>::empty() + def(r1.dom().len(), txt(b, r1))) by { reveal_with_fuel(defs_from, 2); reveal_with_fuel(ext, 2); }
        assert(defs_from(r1, a) =~= def(r1.dom().len(), txt(b, r1)));
        assert(t1.remove(b) =~= t0.difference(d.to_set()));
    } else { assert(t1 =~= t1.remove(b)); }
}
pub open spec fn sure_same(o: Out, n: Out, r: fmt::Result) -> bool { n.sure() == o.sure() && (o.sure() ==> r is Ok) }
//@ file nanvm-lib/src/serializer/to_djs.rs
//@ fn write_compound_const
  requires plain(any.word()), compound(any.word())
  ensures defined(*old(write_json), *final(write_json), res, old(to_be_consts)@.dom(), final(to_be_consts)@.dom(), nats(old(const_refs)@), nats(final(const_refs)@), post(any.word(), old(to_be_consts)@.dom()))
  decreases rank(any.word()), 2nat
//@ sub any.for_each => any.for_each_w
//@ start
  broadcast use {assoc, none, ax_rank};
  let ghost b0 = any.word(); let ghost t0 = to_be_consts@.dom(); let ghost w0 = *write_json; let ghost r0 = nats(const_refs@); proof { post_is(b0, t0); }
//@ before if to_be_consts
  let ghost w1 = *write_json; let ghost t1 = to_be_consts@.dom(); let ghost m1 = const_refs@;
  proof { defined_last(b0, w0, w1, t0, t1, r0, nats(m1)); }
//@ before write_json.write_char(';')
  proof { nats_insert(m1, b0, id); }
//@ tailres
  proof { nats_insert(m1, b0, 0); if t1.contains(b0) { assert(wrote(w1, *write_json, vres, def(nats(m1).dom().len(), txt(b0, nats(m1))))); } }
//@ unclosure 0 write_json, to_be_consts, const_refs
fn wchild<D: Dealloc>(write_json: &mut Out, to_be_consts: &mut AnyMap<D, Seen>, const_refs: &mut AnyMap<D, usize>, vk: Any<D>, v: &Any<D>) -> (res: fmt::Result)
  requires plain(v.word())
  ensures defined(*old(write_json), *final(write_json), res, old(to_be_consts)@.dom(), final(to_be_consts)@.dom(), nats(old(const_refs)@), nats(final(const_refs)@), post(v.word(), old(to_be_consts)@.dom()))
  decreases rank(v.word()), 4nat
//@ fn write_consts_and_any
  requires plain(any.word())
  ensures defined(*old(write_json), *final(write_json), res, old(to_be_consts)@.dom(), final(to_be_consts)@.dom(), nats(old(const_refs)@), nats(final(const_refs)@), post(any.word(), old(to_be_consts)@.dom()))
  decreases rank(any.word()), 3nat
//@ start
  proof { defined_none(*write_json, to_be_consts@.dom(), nats(const_refs@)); }
//@ file nanvm-lib/src/js/any.rs
//@ fn Any::for_each
  requires plain(self.word())
  ensures defined(*old(w), *final(w), res, old(t)@.dom(), final(t)@.dom(), nats(old(c)@), nats(final(c)@), postk(self.word(), kids(self.word()).len(), old(t)@.dom()))
  decreases rank(self.word()), 1nat
//@ sub fn for_each<E> => fn for_each_w
//@ sub mut f: impl FnMut(Any<D>, &Any<D>) -> Result<(), E>, => w: &mut Out, t: &mut AnyMap<D, Seen>, c: &mut AnyMap<D, usize>,
//@ sub Result<(), E> => fmt::Result
//@ sub f(k => wchild(w, t, c, k
//@ sub f((k as f64) => wchild(w, t, c, vf64(k)
//@ start
  let ghost w0 = *w; let ghost t0 = t@.dom(); let ghost r0 = nats(c@); let ghost b = self.word(); broadcast use ax_rank; proof { defined_none(w0, t0, r0); plain_kids(b); }
//@ loop 0
  !vst0.inf(), vst0.n() == kids(b).len(), vk0 <= kids(b).len(), forall|i: int| 0 <= i < kids(b).len() ==> (#[trigger] vst0.at(i)).1.word() == kids(b)[i], b == self.word(), plain(b),
  t0 == old(t)@.dom(), w0 == *old(w), r0 == nats(old(c)@), defined(w0, *w, Ok(()), t0, t@.dom(), r0, nats(c@), postk(b, vk0 as nat, t0)),
//@ loop 0 start
  broadcast use ax_rank; let ghost w1 = *w; let ghost t1 = t@.dom(); let ghost r1 = nats(c@); proof { plain_kids(b); }
//@ loop 0 end
  proof { defined_kid(b, vk0 as int, w0, w1, *w, Ok(()), t0, t1, t@.dom(), r0, r1, nats(c@)); }
//@ loop 1
  !vst1.inf(), vst1.n() == kids(b).len(), vk1 <= kids(b).len(), forall|i: int| 0 <= i < kids(b).len() ==> (#[trigger] vst1.at(i)).1.word() == kids(b)[i], b == self.word(), plain(b),
  t0 == old(t)@.dom(), w0 == *old(w), r0 == nats(old(c)@), defined(w0, *w, Ok(()), t0, t@.dom(), r0, nats(c@), postk(b, vk1 as nat, t0)),
//@ loop 1 start
  broadcast use ax_rank; let ghost w1 = *w; let ghost t1 = t@.dom(); let ghost r1 = nats(c@); proof { plain_kids(b); }
//@ loop 1 end
  proof { defined_kid(b, vk1 as int, w0, w1, *w, Ok(()), t0, t1, t@.dom(), r0, r1, nats(c@)); }
//@ file nanvm-lib/src/serializer/to_djs.rs
//@ fn peek
  ensures match res { Some(a) => hash_map@.dom().contains(a.word()), None => hash_map@.dom().len() == 0 }
//@ fn write_consts
  requires forall|c: u64| #[trigger] old(to_be_consts)@.dom().contains(c) ==> plain(c) && compound(c)
  ensures sure_same(*old(write_json), *final(write_json), res), res is Ok ==> written(*old(write_json), *final(write_json), old(to_be_consts)@.dom(), nats(old(const_refs)@), nats(final(const_refs)@))
//@ start
  let ghost w0 = *write_json; let ghost t0 = to_be_consts@.dom(); let ghost r0 = nats(const_refs@); let ghost mut ord = Seq::<u64>::empty();
  proof { defined_none(w0, t0, r0); }
//@ loop 0
  invariant w0 == *old(write_json), t0 == old(to_be_consts)@.dom(), r0 == nats(old(const_refs)@), forall|c: u64| #[trigger] t0.contains(c) ==> plain(c) && compound(c),
  defined(w0, *write_json, Ok(()), t0, to_be_consts@.dom(), r0, nats(const_refs@), ord), defs_ok(ord, t0),
  ensures to_be_consts@.dom().len() == 0,
  decreases to_be_consts@.dom().len(),
//@ loop 0 start
  let ghost w1 = *write_json; let ghost t1 = to_be_consts@.dom(); let ghost r1 = nats(const_refs@);
//@ loop 0 end
  proof {
    let b = any.word(); let e = post(b, t1); let t2 = to_be_consts@.dom();
    defined_add(w0, w1, *write_json, Ok(()), t0, t1, t2, r0, r1, nats(const_refs@), ord, e);
    post_ok(b, t1); defs_add(ord, e, t0);
    ord = ord + e;
    assert(reach(b, b)); assert(e.to_set().contains(b)); assert(t2.subset_of(t1.remove(b))); vstd::set_lib::lemma_len_subset(t2, t1.remove(b));
  }
//@ loop 0 after
  proof {
    reveal(full);
    let u = to_be_consts@.dom(); assert(u =~= Set::<u64>::empty());
    assert forall|c: u64| #[trigger] ord.contains(c) <==> t0.contains(c) by { assert(ord.to_set().contains(c) == ord.contains(c)); assert(!u.contains(c)); }
    assert(full(ord, t0));
  }
//@ raw
#[verifier::opaque]
pub open spec fn full(d: Seq<u64>, s: Set<u64>) -> bool { defs_ok(d, s) && forall|c: u64| #[trigger] d.contains(c) <==> s.contains(c) }
pub open spec fn written(o: Out, n: Out, s: Set<u64>, r0: Refs, r1: Refs) -> bool { exists|d: Seq<u64>| #[trigger] full(d, s) && n@ == o@ + defs_from(r0, d) && r1 == ext(r0, d) }
//@ raw
pub proof fn occ_has(s: Seq<u64>, c: u64) ensures occ(s, c) > 0 <==> s.contains(c) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); occ_has(t, c);
        if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i] == c); }
        if s.contains(c) && s.last() != c { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i] == c); }
        if s.last() == c { assert(s[s.len() - 1] == c); } }
}
pub proof fn tot_none(s: Seq<u64>, b: u64) requires forall|i: int| 0 <= i < s.len() ==> rank(#[trigger] s[i]) <= rank(b) ensures tot(s, b) == 0 decreases s.len() {
    broadcast use ax_rank;
    if s.len() > 0 { tot_none(s.drop_last(), b); let k = kids(s.last()); occ_has(k, b); if k.contains(b) { let i = choose|i: int| 0 <= i < k.len() && k[i] == b; assert(rank(k[i]) < rank(s.last())); } }
}
pub proof fn shared_are(b: u64, v: Map<u64, Seen>, t: Set<u64>)
    requires plain(b), tracked(Map::empty(), v, compounds(b), seq![b]), forall|c: u64| #[trigger] t.contains(c) <==> v.dom().contains(c) && v[c] is Repeatedly
    ensures forall|c: u64| #[trigger] t.contains(c) <==> shared(b, c), forall|c: u64| #[trigger] t.contains(c) ==> plain(c) && compound(c)
{
    let d = compounds(b);
    compounds_are(b);
    assert forall|c: u64| #[trigger] t.contains(c) <==> shared(b, c) by {
        assert(d.to_set().contains(c) == d.contains(c)); assert(v.dom().contains(c) == d.contains(c));
        if d.contains(c) {
            assert(compound(c)); assert(times(v, c) == sat(times(Map::empty(), c) + tot(d, c) + occ(seq![b], c)));
            occ_has(seq![b], c);
            if c == b {
                assert forall|i: int| 0 <= i < d.len() implies rank(#[trigger] d[i]) <= rank(b) by { assert(d.contains(d[i])); reach_rank(b, d[i]); }
                tot_none(d, b);
                assert(seq![b].drop_last() =~= Seq::<u64>::empty()); assert(occ(seq![b], b) == 1) by { reveal_with_fuel(occ, 2); }
            } else {
                if seq![b].contains(c) { let i = choose|i: int| 0 <= i < 1 && seq![b][i] == c; }
            }
        }
    }
    assert forall|c: u64| #[trigger] t.contains(c) implies plain(c) && compound(c) by { assert(shared(b, c)); plain_reach(b, c); }
}
#[verifier::opaque]
pub open spec fn has_djs(o: Seq<char>, n: Seq<char>, b: u64, cjs: bool) -> bool { exists|s: Seq<u64>| order_of(b, s) && n == o + #[trigger] djs(b, s, cjs) }
pub proof fn djs_done(b: u64, t: Set<u64>, o: Out, n: Out, r: Refs, cjs: bool, m: Seq<char>)
    requires written(o, n, t, Map::empty(), r), forall|c: u64| #[trigger] t.contains(c) <==> shared(b, c), m == n@ + start_text(cjs) + txt(b, r)
    ensures has_djs(o@, m, b, cjs)
{
    reveal(has_djs); reveal(full);
    let d = choose|d: Seq<u64>| #[trigger] full(d, t) && n@ == o@ + defs_from(Map::empty(), d) && r == ext(Map::empty(), d);
    order_is(b, d, t);
    assert(m =~= o@ + djs(b, d, cjs));
}
//@ file nanvm-lib/src/serializer/to_djs.rs
//@ fn WriteDjs::write_djs
  requires plain(any.word())
  ensures sure_same(*old(self), *final(self), res), res is Ok ==> has_djs(old(self)@, final(self)@, any.word(), common_js)
//@ head impl Out
//@ start
  let ghost b0 = any.word(); let ghost w0 = *self;
  broadcast use {assoc, none};
//@ closure 0
|vk: &Any<D>, seen: &mut Seen| -> (r: bool) ensures r == (*old(seen) is Repeatedly), *final(seen) == *old(seen)
=>>
assert(keeps(vc, |s: Seen| s is Repeatedly));
//@ before const_tracker.visited.retain
  let ghost v1 = const_tracker.visited@;
  proof { assert(Map::<u64, Seen>::empty().dom() =~= Set::<u64>::empty()); }
//@ before write_consts
  let ghost t0 = const_tracker.visited@.dom();
  proof { shared_are(b0, v1, t0); assert(nats(const_refs@) =~= Map::empty()); }
//@ after write_consts
  let ghost w1 = *self; let ghost r1 = nats(const_refs@);
//@ tailres
  proof { if vres is Ok { djs_done(b0, t0, w0, w1, r1, common_js, self@); } }
//@ fn to_djs
  requires plain(any.word())
  ensures res is Ok && is_djs(any.word(), common_js, res->Ok_0@)
//@ start
  let ghost b0 = any.word();
//@ tailres
  proof { reveal(has_djs); let t = s@; let q = choose|q: Seq<u64>| order_of(b0, q) && t == Seq::<char>::empty() + #[trigger] djs(b0, q, common_js); assert(t =~= djs(b0, q, common_js)); }
