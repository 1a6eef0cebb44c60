//@ gsub #[derive(Debug, Default, PartialEq)] =>
//@ gsub #[default] =>
//@ gsub io::Result<()> => Result<(), Error>
//@ gsub s.ends_with( => vends_with(s,
//@ gsub s.as_bytes()) => vbytes(&s), Tracked(&mut *w))
//@ gsub io: &impl Io) => io: &impl Io, Tracked(w): Tracked<&mut World>)
//@ gsub &mut default() => &mut ModuleCache::empty()
//@ gsub parse(&mut context) => parse(&mut context, Tracked(&*w))
//@ gsub std::fmt::Formatter<'_> => Formatter
//@ gsub std::fmt::Result => Result<(), FmtError>
//@ raw
// ---- what there is outside: files that can be read, and what has been written ----
pub type Text = Seq<char>;
pub tracked struct World { pub ghost files: Map<Text, Seq<u8>>, pub ghost writes: Seq<(Text, Seq<u8>)> }
pub uninterp spec fn write_fails(w: Seq<(Text, Seq<u8>)>, path: Text, data: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct Error { x: u8 }
// what an error says: `Error::other` of a text says that text
pub trait Says { spec fn says(&self) -> Option<Text>; }
impl Says for String { open spec fn says(&self) -> Option<Text> { Some(self@) } }
impl<'a> Says for &'a str { open spec fn says(&self) -> Option<Text> { Some((*self)@) } }
impl Says for FmtError { open spec fn says(&self) -> Option<Text> { None } }
impl Error {
    pub uninterp spec fn says(&self) -> Option<Text>;
    #[verifier::external_body]
    pub fn other<E: Says>(e: E) -> (r: Error) ensures e.says() is Some ==> r.says() == e.says() { unimplemented!() }
}
// std's Formatter as a text being written, and to_string as what fmt writes
pub struct FmtError();
pub struct Formatter { pub buf: String }
impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok, final(self).buf@ == old(self).buf@ + s@ { unimplemented!() }
}
pub trait Display { fn fmt(&self, f: &mut Formatter) -> Result<(), FmtError>; }
pub struct Args { pub v: Vec<String> }
impl Args {
    pub uninterp spec fn view(&self) -> Seq<Text>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<String>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->Some_0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
}
pub trait Io {
    spec fn argv(&self) -> Seq<Text>;
    fn args(&self) -> (r: Args) ensures r@ == self.argv();
    fn write(&self, path: &str, data: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), Error>)
        ensures r is Err == write_fails(old(w).writes, path@, data@),
            final(w).files == old(w).files, final(w).writes == old(w).writes.push((path@, data@));
}
pub uninterp spec fn utf8(t: Text) -> Seq<u8>;
#[verifier::external_body]
pub fn vbytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
pub open spec fn ends(s: Text, t: Text) -> bool { t.len() <= s.len() && s.subrange(s.len() - t.len(), s.len() as int) == t }
#[verifier::external_body]
pub fn vends_with(s: &str, t: &str) -> (r: bool) ensures r == ends(s@, t@) { s.ends_with(t) }
// ---- the parts: reading a document (P01, L01), JSON text (S01), DJS text (S02) ----
#[verifier::external_body]
pub struct Any { x: u8 }
pub struct Global();
pub const GLOBAL: Global = Global();
#[verifier::external_body]
pub struct ModuleCache { x: u8 }
impl ModuleCache {
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn empty() -> (r: ModuleCache) ensures r.fresh() { unimplemented!() }
}
pub struct Context<'a, I: Io> { pub io: &'a I, pub path: String, pub mc: &'a mut ModuleCache }
impl<'a, I: Io> Context<'a, I> {
    pub fn new(m: Global, io: &'a I, path: String, mc: &'a mut ModuleCache) -> (r: Self)
        ensures r.io == io, r.path == path, *r.mc == *old(mc), *final(r.mc) == *final(mc)
    { Context { io, path, mc } }
}
impl ParseError {
    pub fn to_string(&self) -> (r: String) ensures r@ == name_of(*self)
    { let mut f = Formatter { buf: String::new() }; let _ = self.fmt(&mut f); proof { assert(f.buf@ =~= name_of(*self)); } f.buf }
}
pub open spec fn name_of(e: ParseError) -> Text {
    match e {
        ParseError::UnexpectedToken => "UnexpectedToken"@, ParseError::UnexpectedEnd => "UnexpectedEnd"@, ParseError::WrongExportStatement => "WrongExportStatement"@,
        ParseError::WrongConstStatement => "WrongConstStatement"@, ParseError::WrongRequireStatement => "WrongRequireStatement"@, ParseError::WrongImportStatement => "WrongImportStatement"@,
        ParseError::CannotReadFile => "CannotReadFile"@, ParseError::CircularDependency => "CircularDependency"@, ParseError::NewLineExpected => "NewLineExpected"@,
    }
}
pub struct ParseResult { pub any: Any, pub data_type: DataType }
// the value of the document at this path, if these files have one
pub uninterp spec fn value(files: Map<Text, Seq<u8>>, path: Text) -> Option<Any>;
// and what is wrong with it if they have none
pub uninterp spec fn wrong(files: Map<Text, Seq<u8>>, path: Text) -> ParseError;
#[verifier::external_body]
pub fn parse<I: Io>(c: &mut Context<I>, Tracked(w): Tracked<&World>) -> (r: Result<ParseResult, ParseError>)
    requires old(c).mc.fresh()
    ensures r is Ok == value(w.files, old(c).path@) is Some, r is Ok ==> r->Ok_0.any == value(w.files, old(c).path@)->Some_0, r is Err ==> r->Err_0 == wrong(w.files, old(c).path@)
{ unimplemented!() }
pub uninterp spec fn plain(a: Any) -> bool;
pub uninterp spec fn is_json(a: Any, t: Text) -> bool;
pub uninterp spec fn is_djs(a: Any, cjs: bool, t: Text) -> bool;
#[verifier::external_body]
pub fn to_json(a: Any) -> (r: Result<String, FmtError>) requires plain(a) ensures r is Ok ==> is_json(a, r->Ok_0@), r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn to_djs(a: Any, cjs: bool) -> (r: Result<String, FmtError>) requires plain(a) ensures r is Ok ==> is_djs(a, cjs, r->Ok_0@), r is Ok { unimplemented!() }

// ---- the specification ----
pub enum Kind { Json, Cjs, Mjs }
pub open spec fn kind(out: Text) -> Option<Kind> {
    if ends(out, ".json"@) { Some(Kind::Json) } else if ends(out, ".d.cjs"@) { Some(Kind::Cjs) } else if ends(out, ".d.mjs"@) { Some(Kind::Mjs) } else { None }
}
pub open spec fn is_text(k: Kind, a: Any, t: Text) -> bool { match k { Kind::Json => is_json(a, t), Kind::Cjs => is_djs(a, true, t), Kind::Mjs => is_djs(a, false, t) } }
pub open spec fn converted(w0: World, w1: World, input: Text, out: Text, res: Result<(), Error>) -> bool {
    &&& w1.files == w0.files
    &&& if kind(out) is Some && value(w0.files, input) is Some {
            // one write: the text of the value, to the output file; its failure is the program's
            exists|t: Text| #![trigger utf8(t)] is_text(kind(out)->Some_0, value(w0.files, input)->Some_0, t)
                && w1.writes == w0.writes.push((out, utf8(t))) && res is Err == write_fails(w0.writes, out, utf8(t))
        } else {
            &&& res is Err && w1.writes == w0.writes
            &&& kind(out) is Some ==> res->Err_0.says() == Some(name_of(wrong(w0.files, input)))
        }
}
//@ file nanvm-lib/src/parser/shared.rs
//@ item enum DataType
//@ gsub #[derive(Debug, PartialEq)] =>
//@ item enum ParseError
//@ fn <Display for ParseError>::fmt
  ensures res is Ok, final(f).buf@ == old(f).buf@ + name_of(*self)
//@ file nanvm-lib/src/app/mod.rs
//@ fn run
  requires io.argv().len() >= 3, value(old(w).files, io.argv()[1]) is Some ==> plain(value(old(w).files, io.argv()[1])->Some_0)
  ensures converted(*old(w), *final(w), io.argv()[1], io.argv()[2], res)
//@ fn file_to_data_type
  ensures match kind(s@) { None => res is Err, Some(Kind::Json) => res is Ok && res->Ok_0 is Json, Some(Kind::Cjs) => res is Ok && res->Ok_0 is Cjs, Some(Kind::Mjs) => res is Ok && res->Ok_0 is Mjs }
//@ raw
