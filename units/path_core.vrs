//@ raw
// ---------------------------------------------------------------------------------------------
// What a path text names: a place, reached from the root or from where we are by going up `ups` times
// and then down through `names`.
// ---------------------------------------------------------------------------------------------
pub struct Place { pub abs: bool, pub ups: nat, pub names: Seq<Seq<char>> }
pub open spec fn dots() -> Seq<char> { seq!['.', '.'] }
pub open spec fn sl() -> Seq<char> { seq!['/'] }
// the pieces of s between its slashes
pub open spec fn segs(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else if s[0] == '/' { seq![Seq::<char>::empty()] + segs(s.skip(1)) }
    else { seq![seq![s[0]] + segs(s.skip(1))[0]] + segs(s.skip(1)).skip(1) }
}
pub open spec fn go1(p: Place, d: Seq<char>) -> Place {
    if d.len() == 0 || d == seq!['.'] { p }
    else if d == dots() {
        if p.names.len() > 0 { Place { names: p.names.drop_last(), ..p } }
        else if p.abs { p }
        else { Place { ups: p.ups + 1, ..p } }
    } else { Place { names: p.names.push(d), ..p } }
}
pub open spec fn walk(p: Place, ds: Seq<Seq<char>>) -> Place decreases ds.len() { if ds.len() == 0 { p } else { go1(walk(p, ds.drop_last()), ds.last()) } }
pub open spec fn abs(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '/' }
pub open spec fn start(s: Seq<char>) -> Place { Place { abs: abs(s), ups: 0, names: Seq::empty() } }
// the place a path text names, and the place of the directory it is in
pub open spec fn place(s: Seq<char>) -> Place { walk(start(s), segs(s)) }
pub open spec fn dir_of(s: Seq<char>) -> Place { walk(start(s), segs(s).drop_last()) }
// the canonical text of a place
pub open spec fn comps(p: Place) -> Seq<Seq<char>> { Seq::new(p.ups, |i: int| dots()) + p.names }
pub open spec fn join(l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { l[0] + sl() + join(l.skip(1)) } }
pub open spec fn text(p: Place) -> Seq<char> { (if p.abs { sl() } else { Seq::empty() }) + join(comps(p)) }
// the file that the text `to` in the module `from` names
#[verifier::opaque]
pub open spec fn resolve(from: Seq<char>, to: Seq<char>) -> Seq<char> { text(walk(dir_of(from), segs(to))) }

pub open spec fn noslash(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '/' }
pub open spec fn nm(s: Seq<char>) -> bool { s.len() > 0 && s != seq!['.'] && s != dots() && noslash(s) }
pub open spec fn okp(p: Place) -> bool { (p.abs ==> p.ups == 0) && forall|i: int| 0 <= i < p.names.len() ==> nm(#[trigger] p.names[i]) }
pub proof fn segs_ok(s: Seq<char>) ensures segs(s).len() > 0, forall|i: int| 0 <= i < segs(s).len() ==> noslash(#[trigger] segs(s)[i]), noslash(s) ==> segs(s) =~= seq![s] decreases s.len() {
    if s.len() > 0 { segs_ok(s.skip(1)); let r = segs(s.skip(1));
        assert forall|i: int| 0 <= i < segs(s).len() implies noslash(#[trigger] segs(s)[i]) by { if s[0] == '/' { if i > 0 { assert(segs(s)[i] == r[i - 1]); } } else if i > 0 { assert(segs(s)[i] == r[i]); } else { assert(noslash(r[0])); } }
        if noslash(s) { assert(noslash(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != '/' by { assert(s[i + 1] != '/'); } } assert(s[0] != '/'); assert(seq![s[0]] + s.skip(1) =~= s); }
    } else { assert(seq![s] =~= seq![Seq::empty()]) by { assert(s =~= Seq::empty()); } }
}
pub proof fn segs_cat(x: Seq<char>, y: Seq<char>) ensures segs(x + sl() + y) =~= segs(x) + segs(y) decreases x.len() {
    let s = x + sl() + y;
    if x.len() == 0 { assert(s.skip(1) =~= y); }
    else { segs_ok(x.skip(1)); assert(s.skip(1) =~= x.skip(1) + sl() + y); segs_cat(x.skip(1), y); assert(s[0] == x[0]); let (a, b) = (segs(x.skip(1)), segs(y)); assert((a + b).skip(1) =~= a.skip(1) + b); assert((a + b)[0] == a[0]); }
}
pub proof fn segs_join(l: Seq<Seq<char>>) requires l.len() > 0, forall|i: int| 0 <= i < l.len() ==> noslash(#[trigger] l[i]) ensures segs(join(l)) =~= l decreases l.len() {
    segs_ok(l[0]);
    if l.len() == 1 { assert(l =~= seq![l[0]]); } else { segs_join(l.skip(1)); segs_cat(l[0], join(l.skip(1))); assert(l =~= seq![l[0]] + l.skip(1)); }
}
pub proof fn walk_cat(p: Place, a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures walk(p, a + b) == walk(walk(p, a), b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); walk_cat(p, a, b.drop_last()); }
}
pub proof fn go1_ok(p: Place, d: Seq<char>) requires okp(p), noslash(d) ensures okp(go1(p, d)) {
    let q = go1(p, d);
    assert forall|i: int| 0 <= i < q.names.len() implies nm(#[trigger] q.names[i]) by { if i < p.names.len() { assert(q.names[i] == p.names[i]); } }
}
pub proof fn walk_ok(p: Place, ds: Seq<Seq<char>>) requires okp(p), forall|i: int| 0 <= i < ds.len() ==> noslash(#[trigger] ds[i]) ensures okp(walk(p, ds)), walk(p, ds).abs == p.abs decreases ds.len() {
    if ds.len() > 0 { walk_ok(p, ds.drop_last()); go1_ok(walk(p, ds.drop_last()), ds.last()); }
}
pub proof fn walk_ups(n: nat) ensures walk(Place { abs: false, ups: 0, names: Seq::empty() }, Seq::new(n, |i: int| dots())) == (Place { abs: false, ups: n, names: Seq::empty() }) decreases n {
    if n > 0 { walk_ups((n - 1) as nat); assert(Seq::new(n, |i: int| dots()).drop_last() =~= Seq::new((n - 1) as nat, |i: int| dots())); assert(dots() != seq!['.']) by { assert(dots().len() != seq!['.'].len()); } }
}
pub proof fn walk_names(p: Place, l: Seq<Seq<char>>) requires forall|i: int| 0 <= i < l.len() ==> nm(#[trigger] l[i]) ensures walk(p, l) == (Place { names: p.names + l, ..p }) decreases l.len() {
    if l.len() > 0 { walk_names(p, l.drop_last()); assert(nm(l[l.len() - 1])); assert(p.names + l =~= (p.names + l.drop_last()).push(l.last())); } else { assert(p.names + l =~= p.names); }
}
pub proof fn dots_ns() ensures noslash(dots()) { assert(dots()[0] == '.' && dots()[1] == '.'); }
// the canonical text of a place names that place
pub proof fn canon(p: Place) requires okp(p) ensures place(text(p)) == p {
    let l = comps(p); let s = text(p);
    dots_ns();
    assert forall|i: int| 0 <= i < l.len() implies noslash(#[trigger] l[i]) && l[i].len() > 0 by { if i >= p.ups { assert(l[i] == p.names[i - p.ups]); } }
    let z = Place { abs: p.abs, ups: 0, names: Seq::empty() };
    let e = seq![Seq::<char>::empty()];
    assert(walk(z, l) == p) by {
        if p.abs { assert(l =~= p.names); walk_names(z, p.names); assert(Seq::<Seq<char>>::empty() + p.names =~= p.names); }
        else { walk_ups(p.ups); walk_cat(z, Seq::new(p.ups, |i: int| dots()), p.names); walk_names(Place { ups: p.ups, ..z }, p.names); assert(Seq::<Seq<char>>::empty() + p.names =~= p.names); }
    }
    assert(walk(z, e) == z) by { assert(e.drop_last() =~= Seq::empty()); assert(walk(z, e.drop_last()) == z); assert(e.last().len() == 0); }
    if l.len() == 0 {
        assert(p == z) by { assert(p.names =~= Seq::empty()); }
        if p.abs { assert(s =~= sl()); assert(s.skip(1) =~= Seq::empty()); assert(segs(s.skip(1)) =~= e); assert(segs(s) =~= e + e); walk_cat(z, e, e); }
        else { assert(s =~= Seq::empty()); assert(segs(s) =~= e); }
    } else {
        segs_join(l);
        assert(join(l).len() > 0 && join(l)[0] == l[0][0]);
        if p.abs { assert(s.skip(1) =~= join(l)); assert(segs(s) =~= e + l); walk_cat(z, e, l); }
        else { assert(s =~= join(l)); assert(l[0][0] != '/') by { assert(noslash(l[0])); } }
    }
}
// same text => same place; so a place has one canonical text, and two places have two
pub proof fn canon_unique(p: Place, q: Place) requires okp(p), okp(q), text(p) == text(q) ensures p == q { canon(p); canon(q); }
pub proof fn place_ok(s: Seq<char>) ensures okp(place(s)) { segs_ok(s); walk_ok(start(s), segs(s)); }
// normalizing a normalized path changes nothing
pub proof fn canon_idem(s: Seq<char>) ensures text(place(text(place(s)))) == text(place(s)) { place_ok(s); canon(place(s)); }

pub axiom fn str_ext(lit: &str) ensures forall|a: &str| #[trigger] a@ == lit@ ==> a == lit;
pub open spec fn views(l: Seq<&str>) -> Seq<Seq<char>> { l.map_values(|x: &str| x@) }
pub trait VStr { 
    spec fn sv(&self) -> Seq<char>;
    fn vstarts(&self, c: char) -> (r: bool) ensures r == (self.sv().len() > 0 && self.sv()[0] == c);
    fn vsplit(&self, c: char) -> (r: Vec<&str>) requires c == '/' ensures views(r@) == segs(self.sv());
    fn vrsplit(&self, c: char) -> (r: Option<(&str, &str)>) requires c == '/'
        ensures match r { None => noslash(self.sv()), Some((a, b)) => self.sv() == a@ + sl() + b@ && noslash(b@) };
    fn vempty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn vto_string(&self) -> (r: String) ensures r@ == self.sv();
}
impl VStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vstarts(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn vsplit(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() }
    #[verifier::external_body]
    fn vrsplit(&self, c: char) -> (r: Option<(&str, &str)>) { self.rsplit_once(c) }
    #[verifier::external_body]
    fn vempty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { self.to_string() }
}
#[verifier::external_body]
pub fn vjoin(l: &Vec<&str>) -> (r: String) ensures r@ == join(views(l@)) { l.join("/") }
pub trait VAddStr { spec fn av(&self) -> Seq<char>; fn vplus(self, o: &String) -> (r: String) where Self: Sized ensures r@ == self.av() + o@; fn vpush(&mut self, c: char) ensures final(self).av() == old(self).av().push(c); fn vpush_str(&mut self, s: &str) ensures final(self).av() == old(self).av() + s@; }
impl VAddStr for String {
    open spec fn av(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vplus(self, o: &String) -> (r: String) { self + o }
    #[verifier::external_body]
    fn vpush(&mut self, c: char) { self.push(c) }
    #[verifier::external_body]
    fn vpush_str(&mut self, s: &str) { self.push_str(s) }
}
#[verifier::external_body]
pub fn vnew_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub trait VLast<T> { spec fn ls(&self) -> Seq<T>; fn vlast(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.ls().len() > 0 && *x == self.ls().last(), None => self.ls().len() == 0 }; }
impl<T> VLast<T> for Vec<T> { open spec fn ls(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vlast(&self) -> (r: Option<&T>) { self.last() } }
#[verifier::external_body]
pub fn vsne(a: &&str, b: &&str) -> (r: bool) ensures r == (a@ != b@) { a != b }
#[verifier::external_body]
pub fn vempty_str<'a>() -> (r: &'a str) ensures r@.len() == 0 { "" }
pub proof fn strs() ensures (forall|a: &str| #[trigger] a@ == ""@ ==> a == ""), (forall|a: &str| #[trigger] a@ == "."@ ==> a == "."), (forall|a: &str| #[trigger] a@ == ".."@ ==> a == ".."), (forall|a: &str| #[trigger] a@ == "/"@ ==> a == "/"),
    ""@ =~= Seq::<char>::empty(), "."@ == seq!['.'], ".."@ == dots(), "/"@ == sl() {
    reveal_strlit(""); reveal_strlit("."); reveal_strlit(".."); reveal_strlit("/");
    assert("."@ =~= seq!['.']); assert(".."@ =~= dots()); assert("/"@ =~= sl());
    str_ext(""); str_ext("."); str_ext(".."); str_ext("/");
}
//@ file nanvm-lib/src/parser/path.rs
//@ gsub path.starts_with( => path.vstarts(
//@ gsub path.split('/').collect() => path.vsplit('/')
//@ gsub result_split.last() => result_split.vlast()
//@ gsub x != &".." => vsne(x, &"..")
//@ gsub root == "/" => root.vstarts('/')
//@ gsub root.to_string() + &result_split.join("/") => vnew_string(root).vplus(&vjoin(&result_split))
//@ gsub .to_string() => .vto_string()
//@ gsub .iter() => .viter()
//@ gsub concat.push( => concat.vpush(
//@ gsub concat.push_str( => concat.vpush_str(
//@ gsub a.is_empty() => a.vempty()
//@ gsub path.rsplit_once( => path.vrsplit(
//@ gsub (default(), path) => (vempty_str(), path)
//@ fn normalize
  ensures res@ == text(place(path@)), place(res@) == place(path@)
//@ start
  proof { strs(); segs_ok(path@); place_ok(path@); canon(place(path@)); dots_ns(); walk_ok(start(path@), segs(path@)); }
//@ loop 0 before
  let ghost sg = segs(path@);
//@ loop 0
  !vst0.inf(), vst0.n() == sg.len(), vk0 <= sg.len(), sg == segs(path@), forall|i: int| 0 <= i < sg.len() ==> (#[trigger] vst0.at(i))@ == sg[i],
  okp(walk(start(path@), sg.take(vk0))), walk(start(path@), sg.take(vk0)).abs == abs(path@), abs(path@) == (root@.len() > 0 && root@[0] == '/'), root@ == "/"@ || root@.len() == 0,
  views(result_split@) =~= comps(walk(start(path@), sg.take(vk0))),
//@ loop 0 start
  let ghost p0 = walk(start(path@), sg.take(vk0 - 1)); let ghost rs0 = result_split@;
  proof {
    strs(); dots_ns(); assert(sg.take(vk0).drop_last() =~= sg.take(vk0 - 1)); assert(dir@ == sg[vk0 - 1]); segs_ok(path@); go1_ok(p0, dir@);
    assert(sg.take(vk0).last() == dir@);
    assert(dir@.len() == 0 ==> dir@ =~= ""@);
    let c = comps(p0); assert(c.len() == p0.ups + p0.names.len());
    if p0.names.len() > 0 { assert(c.last() == p0.names.last()); assert(nm(p0.names[p0.names.len() - 1])); assert(c.drop_last() =~= comps(Place { names: p0.names.drop_last(), ..p0 })); }
    else if p0.ups > 0 { assert(c.last() == dots()); }
    assert(c.len() > 0 ==> result_split@.last()@ == c.last()) by { if c.len() > 0 { assert(views(result_split@)[c.len() - 1] == result_split@[c.len() - 1]@); } }
  }
//@ loop 0 end
  proof {
    let p1 = go1(p0, dir@); let c = comps(p0);
    if dir@.len() == 0 { assert(result_split@ == rs0); } else if dir@ == seq!['.'] { assert(result_split@ == rs0); }
    else if dir@ == dots() { if p0.names.len() > 0 { assert(result_split@ == rs0.drop_last()); } else if p0.abs { assert(c.len() == 0); assert(result_split@ == rs0); } else { assert(result_split@ == rs0.push(dir)); } }
    else { assert(result_split@ == rs0.push(dir)); }
    assert(p1 == walk(start(path@), sg.take(vk0)));
    assert(result_split@ == rs0 || result_split@ == rs0.push(dir) || result_split@ == rs0.drop_last());
    if result_split@.len() == rs0.len() + 1 { assert(views(result_split@) =~= views(rs0).push(dir@)); }
    if result_split@.len() + 1 == rs0.len() { assert(views(result_split@) =~= views(rs0).drop_last()); }
    assert(comps(Place { names: p0.names.push(dir@), ..p0 }) =~= c.push(dir@));
    if p0.names.len() == 0 { assert(p0.names =~= Seq::empty()); assert(comps(Place { ups: p0.ups + 1, ..p0 }) =~= c.push(dots())); }
  }
//@ loop 0 after
  proof { assert(sg.take(sg.len() as int) =~= sg); assert(views(result_split@) == comps(place(path@))); assert(root@ =~= if abs(path@) { sl() } else { Seq::empty() }); }
//@ fn concat
  ensures res@ == text(walk(place(a@), segs(b@))), place(res@) == walk(place(a@), segs(b@))
//@ start
  proof {
    strs();
    let x = if a@.len() == 0 { "."@ } else { a@ };
    let s = x.push('/') + b@;
    assert(s =~= x + sl() + b@);
    segs_cat(x, b@); walk_cat(start(s), segs(x), segs(b@));
    assert(start(s) == start(x)) by { assert(s[0] == x[0]); }
    if a@.len() == 0 {
        assert(a@ =~= Seq::empty());
        let e = seq![Seq::<char>::empty()]; let z = start(a@);
        segs_ok("."@); assert(noslash("."@)); assert(segs("."@) =~= seq!["."@]);
        assert(segs(a@) =~= e);
        assert(walk(z, e) == z) by { assert(walk(z, e.drop_last()) == z); assert(e.last().len() == 0); }
        assert(walk(z, seq!["."@]) == z) by { assert(walk(z, seq!["."@].drop_last()) == z); assert(seq!["."@].last() == seq!['.']); }
        assert(start("."@) == z);
    }
  }
//@ fn split
  ensures place(res.0@) == dir_of(path@), res.1@ == segs(path@).last()
//@ start
  proof {
    strs();
    assert(forall|x: &str| (#[trigger] x@).len() == 0 ==> x@ =~= ""@);
    let e = seq![Seq::<char>::empty()];
    assert forall|x: Seq<char>, y: Seq<char>| path@ == x + sl() + y && noslash(y) implies #[trigger] segs(x + sl() + y) =~= segs(x).push(y) by { segs_cat(x, y); segs_ok(y); }
    assert forall|z: Place| #[trigger] walk(z, e) == z by { assert(walk(z, e.drop_last()) == z); assert(e.last().len() == 0); }
    assert forall|z: Place| #[trigger] walk(z, e + e) == z by { walk_cat(z, e, e); }
    assert forall|x: Seq<char>| x.len() == 0 implies #[trigger] segs(x) == e by { assert(x =~= Seq::empty()); assert(segs(x) =~= e); }
    assert(segs(sl()) =~= e + e) by { assert(sl().skip(1) =~= Seq::empty()); assert(segs(sl().skip(1)) =~= e); }
    segs_ok(path@);
    assert forall|x: Seq<char>, y: Seq<char>| path@ == x + sl() + y && noslash(y) implies segs(path@).drop_last() =~= segs(x) && segs(path@).last() == y && abs(path@) == (#[trigger] (x + sl() + y)[0] == '/') && (x.len() > 0 ==> start(path@) == start(x)) && (x.len() == 0 ==> start(path@) == start(sl())) by { assert(segs(x + sl() + y) =~= segs(x).push(y)); if x.len() > 0 { assert(path@[0] == x[0]); } else { assert(path@[0] == sl()[0]); } }
    assert(place(sl()) == start(sl()));
    if noslash(path@) { assert(segs(path@).drop_last() =~= Seq::empty()); assert(!abs(path@)); assert(dir_of(path@) == start(path@)); assert forall|x: Seq<char>| x.len() == 0 implies #[trigger] place(x) == start(path@) by { assert(segs(x) == e); assert(walk(start(x), e) == start(x)); } }
    assert forall|x: Seq<char>, y: Seq<char>| path@ == #[trigger] (x + sl() + y) && noslash(y) implies dir_of(path@) == if x.len() > 0 { place(x) } else { place(sl()) } by {
        assert(segs(x + sl() + y) =~= segs(x).push(y)); assert(segs(path@).drop_last() =~= segs(x));
        if x.len() == 0 { assert(path@[0] == sl()[0]); assert(start(path@) == start(sl())); assert(walk(start(sl()), e) == start(sl())); } else { assert(path@[0] == x[0]); }
    }
  }
