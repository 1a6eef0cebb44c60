//@ include ser_spec.vrs
//@ raw
pub trait Dealloc {}
pub trait FlexibleArrayHeader {}
impl FlexibleArrayHeader for usize {}
// ---------------------------------------------------------------------------------------------
// Contracts of what the serializer stands on
// ---------------------------------------------------------------------------------------------
pub struct FlexibleArray<I, H> { pub i: PhantomData<I>, pub h: PhantomData<H> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Ref<T, D: Dealloc> { t: PhantomData<T>, d: PhantomData<D> }
impl<I, H, D: Dealloc> Ref<FlexibleArray<I, H>, D> {
    pub uninterp spec fn view(self) -> Seq<I>;
    #[verifier::external_body]
    pub fn items(&self) -> (r: &[I]) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Any<D: Dealloc> { p: PhantomData<D> }
pub type JsString = FlexibleArray<u16, usize>;
pub type JsStringRef<D> = Ref<JsString, D>;
pub type Property<D> = (JsStringRef<D>, Any<D>);
pub type JsObjectRef<D> = Ref<FlexibleArray<Property<D>, usize>, D>;
pub type JsArrayRef<D> = Ref<FlexibleArray<Any<D>, usize>, D>;
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct JsBigintRef<D: Dealloc> { p: PhantomData<D> }
pub open spec fn words<D: Dealloc>(s: Seq<Any<D>>) -> Seq<u64> { s.map_values(|x: Any<D>| x.word()) }
pub open spec fn props<D: Dealloc>(s: Seq<Property<D>>) -> Seq<(Seq<u16>, u64)> { s.map_values(|x: Property<D>| (x.0@, x.1.word())) }
// what can be moved out of an Any
pub trait AnyCast<D: Dealloc>: Sized { spec fn is(n: Node) -> bool; spec fn stands_for(self, n: Node) -> bool; }
impl<D: Dealloc> AnyCast<D> for f64 { open spec fn is(n: Node) -> bool { n is Num } open spec fn stands_for(self, n: Node) -> bool { n == Node::Num(self) } }
impl<D: Dealloc> AnyCast<D> for bool { open spec fn is(n: Node) -> bool { n is Bool } open spec fn stands_for(self, n: Node) -> bool { n == Node::Bool(self) } }
impl<D: Dealloc> AnyCast<D> for JsStringRef<D> { open spec fn is(n: Node) -> bool { n is Str } open spec fn stands_for(self, n: Node) -> bool { n == Node::Str(self@) } }
impl<D: Dealloc> AnyCast<D> for JsObjectRef<D> { open spec fn is(n: Node) -> bool { n is Obj } open spec fn stands_for(self, n: Node) -> bool { n == Node::Obj(props(self@)) } }
impl<D: Dealloc> AnyCast<D> for JsArrayRef<D> { open spec fn is(n: Node) -> bool { n is Arr } open spec fn stands_for(self, n: Node) -> bool { n == Node::Arr(words(self@)) } }
impl<D: Dealloc> AnyCast<D> for JsBigintRef<D> { open spec fn is(n: Node) -> bool { n is Big } open spec fn stands_for(self, n: Node) -> bool { n is Big } }
pub open spec fn type_of(n: Node) -> Type { match n { Node::Null => Type::Null, Node::Bool(_) => Type::Bool, Node::Num(_) => Type::Number, Node::Str(_) => Type::String, Node::Big(_) => Type::Bigint, Node::Arr(_) => Type::Array, Node::Obj(_) => Type::Object } }
impl<D: Dealloc> Any<D> {
    pub uninterp spec fn word(self) -> u64;
    #[verifier::external_body]
    pub fn get_type(&self) -> (r: Type) ensures r == type_of(node(self.word())) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_move<T: AnyCast<D>>(self) -> (r: Result<T, ()>) ensures match r { Ok(t) => T::is(node(self.word())) && t.stands_for(node(self.word())), Err(_) => !T::is(node(self.word())) } { unimplemented!() }
}
impl<D: Dealloc> Clone for Any<D> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.word() == self.word() { unimplemented!() }
}
impl<T, D: Dealloc> Clone for Ref<T, D> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait ToAny<D: Dealloc>: AnyCast<D> { fn move_to_any(self) -> (r: Any<D>) ensures self.stands_for(node(r.word())); }
impl<D: Dealloc, T: AnyCast<D>> ToAny<D> for T {
    #[verifier::external_body]
    fn move_to_any(self) -> Any<D> { unimplemented!() } }
pub trait ToStr { spec fn text(&self) -> Seq<char>; fn vto_string(&self) -> (r: String) ensures r@ == self.text(); }
impl ToStr for f64 { open spec fn text(&self) -> Seq<char> { f64_text(*self) }
    #[verifier::external_body]
    fn vto_string(&self) -> String { self.to_string() } }
impl ToStr for usize { open spec fn text(&self) -> Seq<char> { nat_text(*self as nat) }
    #[verifier::external_body]
    fn vto_string(&self) -> String { self.to_string() } }
// a core::fmt::Write: what has been written to it. One that is `sure` never fails; a String is.
pub mod fmt { use super::*; pub struct Error; pub type Result = core::result::Result<(), Error>; }
#[verifier::external_body]
pub struct Out { s: String }
impl Out {
    pub uninterp spec fn view(self) -> Seq<char>;
    pub uninterp spec fn sure(self) -> bool;
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: fmt::Result) ensures wrote(*old(self), *final(self), r, seq![c]) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: fmt::Result) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vdefault() -> (r: Self) ensures r@ == Seq::<char>::empty(), r.sure() { unimplemented!() }
}
pub open spec fn wrote(o: Out, n: Out, r: fmt::Result, s: Seq<char>) -> bool { n.sure() == o.sure() && (o.sure() ==> r is Ok) && (r is Ok ==> n@ == o@ + s) }
// f writes g(x) for each item x of s
pub open spec fn can_write<I, F: Fn(&mut Out, &I) -> fmt::Result>(f: F, s: Seq<I>) -> bool { forall|w: &mut Out, k: int| 0 <= k < s.len() ==> #[trigger] f.requires((w, &s[k])) }
#[verifier::prophetic]
pub open spec fn writes<I, F: Fn(&mut Out, &I) -> fmt::Result>(f: F, s: Seq<I>, g: spec_fn(I) -> Seq<char>) -> bool {
    forall|w: &mut Out, k: int, r: fmt::Result| 0 <= k < s.len() && #[trigger] f.ensures((w, &s[k]), r) ==> wrote(*w, *final(w), r, g(s[k]))
}
//@ gsub .iter() => .viter()
//@ gsub .to_string() => .vto_string()
//@ gsub String::default() => Out::vdefault()
//@ gsub result::Result<String, fmt::Error> => Result<Out, fmt::Error>
//@ gsub fmt::Error> => fmt::Error>
//@ file nanvm-lib/src/js/type_.rs
//@ gsub #[derive(Debug, PartialEq)] => 
//@ gsub Number = 0 => Number
//@ gsub Bool = 1 => Bool
//@ gsub String = 2 => String
//@ gsub Null = 3 => Null
//@ gsub Object = 4 => Object
//@ gsub Array = 5 => Array
//@ gsub Bigint = 6 => Bigint
//@ item enum Type
//@ file nanvm-lib/src/js/visitor.rs
//@ item enum Visitor
//@ gsub pub enum Visitor => #[verifier::reject_recursive_types(T)] pub enum Visitor
//@ raw
pub open spec fn shows<D: Dealloc>(v: Visitor<D>, n: Node) -> bool {
    match v {
        Visitor::Number(f) => n == Node::Num(f),
        Visitor::Null => n is Null,
        Visitor::Bool(b) => n == Node::Bool(b),
        Visitor::String(s) => n == Node::Str(s@),
        Visitor::Object(o) => n == Node::Obj(props(o@)),
        Visitor::Array(a) => n == Node::Arr(words(a@)),
        Visitor::Bigint(_) => n is Big,
    }
}
//@ fn to_visitor
  ensures shows(res, node(any.word()))
//@ raw
pub proof fn lits() ensures r#"\\"#@ == seq!['\\', '\\'], r#"\""#@ == seq!['\\', '"'], r#"\b"#@ == seq!['\\', 'b'], r#"\f"#@ == seq!['\\', 'f'], r#"\n"#@ == seq!['\\', 'n'], r#"\r"#@ == seq!['\\', 'r'], r#"\t"#@ == seq!['\\', 't'], "\\u"@ == seq!['\\', 'u'] {
    reveal_strlit(r#"\\"#); reveal_strlit(r#"\""#); reveal_strlit(r#"\b"#); reveal_strlit(r#"\f"#); reveal_strlit(r#"\n"#); reveal_strlit(r#"\r"#); reveal_strlit(r#"\t"#); reveal_strlit("\\u");
    assert(r#"\\"#@ =~= seq!['\\', '\\']); assert(r#"\""#@ =~= seq!['\\', '"']); assert(r#"\b"#@ =~= seq!['\\', 'b']); assert(r#"\f"#@ =~= seq!['\\', 'f']); assert(r#"\n"#@ =~= seq!['\\', 'n']); assert(r#"\r"#@ =~= seq!['\\', 'r']); assert(r#"\t"#@ =~= seq!['\\', 't']); assert("\\u"@ =~= seq!['\\', 'u']);
}
//@ file nanvm-lib/src/serializer/to_json.rs
//@ item const ESCAPE_B
//@ item const ESCAPE_F
//@ fn WriteJson::write_u4_hex
  ensures wrote(*old(self), *final(self), res, seq![hex_digit(v as int % 16)])
//@ head impl Out
//@ start
  proof { assert(v as usize & 0xF == v as usize % 16) by (bit_vector); }
//@ fn WriteJson::write_js_escape
  ensures wrote(*old(self), *final(self), res, seq!['\\', 'u'] + hex4(c))
//@ head impl Out
//@ start
  broadcast use {assoc, none}; proof { reveal_strlit("\\u"); assert("\\u"@ =~= seq!['\\', 'u']);
    assert(c >> 12 == c / 4096) by (bit_vector); assert(c >> 8 == c / 256) by (bit_vector); assert(c >> 4 == c / 16) by (bit_vector); }
//@ tailres
  proof { let h = hex4(c); assert(h =~= seq![h[0]] + seq![h[1]] + seq![h[2]] + seq![h[3]]); assert(seq!['\\', 'u'] + hex4(c) == seq!['\\', 'u'] + seq![h[0]] + seq![h[1]] + seq![h[2]] + seq![h[3]]) by { assert(seq!['\\', 'u'] + seq![h[0]] + seq![h[1]] + seq![h[2]] + seq![h[3]] =~= seq!['\\', 'u'] + h); } }
//@ fn WriteJson::write_js_string
  ensures wrote(*old(self), *final(self), res, jstr(s@))
//@ head impl Out
//@ start
  broadcast use {assoc, none}; proof { lits(); }
//@ loop 0
  !vst0.inf(), vst0.n() == s@.len(), vk0 <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] vst0.at(i)) == s@[i],
  wrote(*old(self), *self, Ok(()), seq!['"'] + escs(s@.take(vk0))),
//@ loop 0 start
  let ghost w0 = *self;
  broadcast use {assoc, none};
  proof { lits(); assert(s@.take(vk0).drop_last() =~= s@.take(vk0 - 1)); assert(s@.take(vk0).last() == c); }
//@ loop 0 end
  proof { assert(self@ == w0@ + esc(c)); assert(self@ =~= old(self)@ + (seq!['"'] + escs(s@.take(vk0)))); }
//@ loop 0 after
  proof { assert(s@.take(vk0) =~= s@); assert(old(self)@ + jstr(s@) =~= (old(self)@ + (seq!['"'] + escs(s@))) + seq!['"']); }
//@ fn WriteJson::write_list
  requires can_write(f, v@)
  ensures forall|g: spec_fn(I) -> Seq<char>| #[trigger] writes(f, v@, g) ==> wrote(*old(self), *final(self), res, list(open, close, v@.map_values(g)))
//@ head impl Out
//@ start
  broadcast use {assoc, none}; proof { reveal_strlit(""); reveal_strlit(","); assert(""@ =~= Seq::<char>::empty()); assert(","@ =~= seq![',']); }
//@ loop 0
  !vst0.inf(), vst0.n() == v@.len(), vk0 <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] vst0.at(i)) == v@[i],
  can_write(f, v@), comma@ =~= if vk0 == 0 { Seq::<char>::empty() } else { seq![','] },
  forall|g: spec_fn(I) -> Seq<char>| #[trigger] writes(f, v@, g) ==> wrote(*old(self), *self, Ok(()), seq![open] + joined(v@.map_values(g).take(vk0))),
//@ loop 0 start
  let ghost w0 = *self;
  broadcast use {assoc, none};
  proof { reveal_strlit(""); reveal_strlit(","); assert(""@ =~= Seq::<char>::empty()); assert(","@ =~= seq![',']); assert(*i == v@[vk0 - 1]); }
//@ loop 0 end
  proof { 
    assert forall|g: spec_fn(I) -> Seq<char>| #[trigger] writes(f, v@, g) implies wrote(*old(self), *self, Ok(()), seq![open] + joined(v@.map_values(g).take(vk0))) by {
      let m = v@.map_values(g); assert(m.take(vk0).drop_last() =~= m.take(vk0 - 1)); assert(m.take(vk0).last() == g(*i));
      assert(self@ =~= old(self)@ + (seq![open] + joined(m.take(vk0))));
    }
  }
//@ loop 0 after
  proof { assert forall|g: spec_fn(I) -> Seq<char>| #[trigger] writes(f, v@, g) implies wrote(*old(self), *self, Ok(()), seq![open] + joined(v@.map_values(g))) && self@ + seq![close] == old(self)@ + list(open, close, v@.map_values(g)) by { let m = v@.map_values(g); assert(m.take(vk0) =~= m); assert(old(self)@ + (seq![open] + joined(m)) + seq![close] =~= old(self)@ + list(open, close, m)); } }
//@ fn WriteJson::write_json
  requires plain(any.word())
  ensures wrote(*old(self), *final(self), res, ser(any.word()))
  decreases rank(any.word())
//@ head impl Out
//@ start
  let ghost b0 = any.word();
  broadcast use {assoc, none, ax_rank}; proof { plain_kids(b0); }
//@ closure 0
|w: &mut Out, vx: &Property<_>| -> (r: fmt::Result) requires plain(vx.1.word()), rank(vx.1.word()) < rank(b0) ensures wrote(*old(w), *final(w), r, member(vx.0@, ser(vx.1.word())))
=>>
let g = |x: Property<_>| member(x.0@, ser(x.1.word()));
assert forall|k: int| 0 <= k < o@.len() implies plain((#[trigger] o@[k]).1.word()) && rank(o@[k].1.word()) < rank(b0) by { assert(kids(b0)[k] == o@[k].1.word()); }
assert(writes(vc, o@, g)); assert(o@.map_values(g) =~= items(b0, Map::empty()));
//@ closure 1
|w: &mut Out, vx: &Any<_>| -> (r: fmt::Result) requires plain(vx.word()), rank(vx.word()) < rank(b0) ensures wrote(*old(w), *final(w), r, ser(vx.word()))
=>>
let g = |x: Any<_>| ser(x.word());
assert forall|k: int| 0 <= k < a@.len() implies plain((#[trigger] a@[k]).word()) && rank(a@[k].word()) < rank(b0) by { assert(kids(b0)[k] == a@[k].word()); }
assert(writes(vc, a@, g)); assert(a@.map_values(g) =~= items(b0, Map::empty()));
//@ fn to_json
  requires plain(a.word())
  ensures res is Ok && res->Ok_0@ == ser(a.word())
