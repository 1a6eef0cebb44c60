//@ raw
// ---------------------------------------------------------------------------------------------
// Values and tokens
// ---------------------------------------------------------------------------------------------
pub enum AVal { Null, Bool(bool), Num(f64), Str(Seq<u16>), Big(int), Arr(Seq<AVal>), Obj(Seq<(Seq<u16>, AVal)>) }
pub enum PTok { Num(f64), Str(Seq<char>), Id(Seq<char>), Big(int), Op(char), Nl, Bad }
pub type Vals = Map<Seq<char>, AVal>;
// the UTF-16 code units of a text; the tokens of a text (T01)
pub open spec fn utf16(n: int) -> Seq<u16> { if n < 0x10000 { seq![n as u16] } else { seq![(0xd800 + (n - 0x10000) / 0x400) as u16, (0xdc00 + (n - 0x10000) % 0x400) as u16] } }
#[verifier::opaque]
pub open spec fn u16s(s: Seq<char>) -> Seq<u16> decreases s.len() { if s.len() == 0 { Seq::empty() } else { u16s(s.drop_last()) + utf16(s.last() as int) } }
// the order of texts, char by char; the entries of a map in this order
pub open spec fn tlt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() { b.len() > 0 && (a.len() == 0 || (if a[0] == b[0] { tlt(a.skip(1), b.skip(1)) } else { a[0] < b[0] })) }
pub open spec fn ascending(s: Seq<(Seq<char>, AVal)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tlt(#[trigger] s[i].0, #[trigger] s[j].0) }
pub open spec fn at(s: Seq<(Seq<char>, AVal)>, k: Seq<char>) -> int { choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k }
pub open spec fn entries(m: Vals, s: Seq<(Seq<char>, AVal)>) -> bool {
    &&& ascending(s)
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> 0 <= at(s, k) < s.len() && s[at(s, k)].0 == k
}
#[verifier::opaque]
pub open spec fn sorted(m: Vals) -> Seq<(Seq<char>, AVal)> { choose|s: Seq<(Seq<char>, AVal)>| entries(m, s) }
pub proof fn tlt_one_way(a: Seq<char>, b: Seq<char>) requires tlt(a, b) ensures !tlt(b, a), a != b decreases a.len()
{ if a.len() > 0 && a[0] == b[0] { tlt_one_way(a.skip(1), b.skip(1)); } }
// there is one such order
pub proof fn entries_upto(m: Vals, s: Seq<(Seq<char>, AVal)>, t: Seq<(Seq<char>, AVal)>, n: int)
    requires entries(m, s), entries(m, t), 0 <= n <= s.len() ensures n <= t.len(), s.take(n) == t.take(n) decreases n
{
    if n > 0 {
        let i = n - 1; entries_upto(m, s, t, i);
        assert forall|j: int| 0 <= j < i implies s[j] == t[j] by { assert(s.take(i)[j] == s[j] && t.take(i)[j] == t[j]); }
        let k = at(t, s[i].0); assert(m.dom().contains(s[i].0)); assert(t[k].0 == s[i].0);
        if k < i { assert(s[k].0 == s[i].0); tlt_one_way(s[k].0, s[i].0); }
        if k != i {
            let l = at(s, t[i].0); assert(m.dom().contains(t[i].0)); assert(s[l].0 == t[i].0);
            tlt_one_way(t[i].0, t[k].0);
            if l < i { assert(t[l].0 == t[i].0); tlt_one_way(t[l].0, t[i].0); }
            if l > i { tlt_one_way(s[i].0, s[l].0); }
        }
        assert(s[i] == t[i]); assert(s.take(n) =~= t.take(n));
    } else { assert(s.take(n) =~= t.take(n)); }
}
pub proof fn sorted_is(m: Vals, s: Seq<(Seq<char>, AVal)>) requires entries(m, s) ensures sorted(m) == s
{
    reveal(sorted); let t = sorted(m); entries_upto(m, s, t, s.len() as int); entries_upto(m, t, s, t.len() as int);
    assert(s.take(s.len() as int) =~= s); assert(t.take(t.len() as int) =~= t);
}
pub uninterp spec fn toks_of(s: Seq<char>) -> Seq<PTok>;
pub open spec fn obj(m: Vals) -> AVal { AVal::Obj(sorted(m).map_values(|p: (Seq<char>, AVal)| (u16s(p.0), p.1))) }
//@ file nanvm-lib/src/parser/shared.rs
//@ gsub #[default] => 
//@ gsub #[derive(Debug, Default, PartialEq)] => 
//@ gsub #[derive(Default, Debug)] => 
//@ gsub #[derive(Debug, PartialEq)] => 
//@ gsub #[derive(Debug)] => 
//@ item enum DataType
//@ item enum ParsingStatus
//@ item enum ParseError
//@ file nanvm-lib/src/tokenizer/mod.rs
//@ item enum ErrorType
//@ raw
// ---------------------------------------------------------------------------------------------
// The grammar: what a sequence of tokens means, read from left to right, in a module `path` while the
// modules `prog` are being loaded. `c` are the modules already loaded; every function gives the modules
// loaded afterwards too.
// ---------------------------------------------------------------------------------------------
pub struct Env { pub files: Map<Seq<char>, Seq<char>>, pub path: Seq<char>, pub prog: Set<Seq<char>> }
pub enum GR { Got(DataType, AVal, Seq<PTok>), Err(ParseError), More }
pub type GC = (Vals, GR);
pub type Doc = Result<(DataType, AVal), ParseError>;
pub open spec fn room(e: Env) -> nat { e.files.dom().difference(e.prog).len() }
pub open spec fn inner(e: Env, k: Seq<char>) -> Env { Env { path: k, prog: e.prog.insert(k), ..e } }
pub open spec fn dj(d: DataType) -> bool { !(d is Json) }
pub open spec fn cjs_ok(d: DataType) -> bool { !(d is Mjs) }
pub open spec fn mjs_ok(d: DataType) -> bool { !(d is Cjs) }
pub open spec fn djs_of(d: DataType) -> DataType { if d is Json { DataType::Djs } else { d } }
pub open spec fn op(t: PTok, c: char) -> bool { t == PTok::Op(c) }
pub open spec fn id(t: PTok, s: Seq<char>) -> bool { t == PTok::Id(s) }
// a token that is a value by itself
pub open spec fn try_any(t: PTok, ks: Vals) -> Option<AVal> {
    match t {
        PTok::Num(f) => Some(AVal::Num(f)),
        PTok::Str(s) => Some(AVal::Str(u16s(s))),
        PTok::Big(b) => Some(AVal::Big(b)),
        PTok::Id(s) => if s == "null"@ { Some(AVal::Null) } else if s == "true"@ { Some(AVal::Bool(true)) } else if s == "false"@ { Some(AVal::Bool(false)) } else if ks.dom().contains(s) { Some(ks[s]) } else { None },
        _ => None,
    }
}
// w: the value is that of a const statement
pub open spec fn bad_req(w: bool, t: PTok) -> ParseError { if w && op(t, ';') { ParseError::UnexpectedToken } else { ParseError::WrongRequireStatement } }
pub open spec fn gval(e: Env, c: Vals, w: bool, d: DataType, ks: Vals, t: Seq<PTok>) -> GC decreases room(e), t.len(), 0int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { gval(e, c, w, d, ks, t.skip(1)) }
    else if op(t[0], '[') { garr(e, c, w, d, ks, Seq::empty(), t.skip(1)) }
    else if op(t[0], '{') { gobj(e, c, w, d, ks, Map::empty(), t.skip(1)) }
    else if id(t[0], "require"@) && cjs_ok(d) { greq(e, c, w, t.skip(1)) }
    else { match try_any(t[0], ks) { Some(v) => (c, GR::Got(d, v, t.skip(1))), None => (c, GR::Err(ParseError::UnexpectedToken)) } }
}
// after `[` or `,` in an array with the items a
pub open spec fn garr(e: Env, c: Vals, w: bool, d: DataType, ks: Vals, a: Seq<AVal>, t: Seq<PTok>) -> GC decreases room(e), t.len(), 1int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { garr(e, c, w, d, ks, a, t.skip(1)) }
    else if op(t[0], ']') { (c, GR::Got(d, AVal::Arr(a), t.skip(1))) }
    else { match gval(e, c, w, d, ks, t) {
        (c2, GR::Got(d2, v, r)) => if r.len() < t.len() { garr2(e, c2, w, d2, ks, a.push(v), r) } else { (c, GR::More) },
        x => x } }
}
// after an item
pub open spec fn garr2(e: Env, c: Vals, w: bool, d: DataType, ks: Vals, a: Seq<AVal>, t: Seq<PTok>) -> GC decreases room(e), t.len(), 0int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { garr2(e, c, w, d, ks, a, t.skip(1)) }
    else if op(t[0], ']') { (c, GR::Got(d, AVal::Arr(a), t.skip(1))) }
    else if op(t[0], ',') { garr(e, c, w, d, ks, a, t.skip(1)) }
    else { (c, GR::Err(ParseError::UnexpectedToken)) }
}
pub open spec fn is_key(t: PTok, d: DataType) -> bool { t is Str || (t is Id && dj(d)) }
pub open spec fn key_of(t: PTok) -> Seq<char> { match t { PTok::Str(s) => s, PTok::Id(s) => s, _ => arbitrary() } }
// after `{` or `,` in an object with the members m
pub open spec fn gobj(e: Env, c: Vals, w: bool, d: DataType, ks: Vals, m: Vals, t: Seq<PTok>) -> GC decreases room(e), t.len(), 0int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { gobj(e, c, w, d, ks, m, t.skip(1)) }
    else if op(t[0], '}') { (c, GR::Got(d, obj(m), t.skip(1))) }
    else if is_key(t[0], d) { gkey(e, c, w, d, ks, m, key_of(t[0]), t.skip(1)) }
    else { (c, GR::Err(ParseError::UnexpectedToken)) }
}
// after the key k
pub open spec fn gkey(e: Env, c: Vals, w: bool, d: DataType, ks: Vals, m: Vals, k: Seq<char>, t: Seq<PTok>) -> GC decreases room(e), t.len(), 0int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { gkey(e, c, w, d, ks, m, k, t.skip(1)) }
    else if op(t[0], ':') { match gval(e, c, w, d, ks, t.skip(1)) {
        (c2, GR::Got(d2, v, r)) => if r.len() < t.len() { gobj2(e, c2, w, d2, ks, m.insert(k, v), r) } else { (c, GR::More) },
        x => x } }
    else { (c, GR::Err(ParseError::UnexpectedToken)) }
}
// after a member
pub open spec fn gobj2(e: Env, c: Vals, w: bool, d: DataType, ks: Vals, m: Vals, t: Seq<PTok>) -> GC decreases room(e), t.len(), 0int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { gobj2(e, c, w, d, ks, m, t.skip(1)) }
    else if op(t[0], '}') { (c, GR::Got(d, obj(m), t.skip(1))) }
    else if op(t[0], ',') { gobj(e, c, w, d, ks, m, t.skip(1)) }
    else { (c, GR::Err(ParseError::UnexpectedToken)) }
}
// after `require`: `("module")`
pub open spec fn greq(e: Env, c: Vals, w: bool, t: Seq<PTok>) -> GC decreases room(e), t.len(), 0int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { greq(e, c, w, t.skip(1)) }
    else if op(t[0], '(') { greq2(e, c, w, t.skip(1)) }
    else { (c, GR::Err(bad_req(w, t[0]))) }
}
pub open spec fn greq2(e: Env, c: Vals, w: bool, t: Seq<PTok>) -> GC decreases room(e), t.len(), 0int {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { greq2(e, c, w, t.skip(1)) }
    else { match t[0] {
        PTok::Str(s) => match load(e, c, s) { (c2, Ok(v)) => greq3(c2, w, v, t.skip(1)), (c2, Err(x)) => (c2, GR::Err(x)) },
        _ => (c, GR::Err(bad_req(w, t[0]))) } }
}
pub open spec fn greq3(c: Vals, w: bool, v: AVal, t: Seq<PTok>) -> GC decreases t.len() {
    if t.len() == 0 { (c, GR::More) }
    else if t[0] is Nl { greq3(c, w, v, t.skip(1)) }
    else if op(t[0], ')') { (c, GR::Got(DataType::Cjs, v, t.skip(1))) }
    else { (c, GR::Err(bad_req(w, t[0]))) }
}
// the value of the module that `s` names here; a module is read once
pub open spec fn load(e: Env, c: Vals, s: Seq<char>) -> (Vals, Result<AVal, ParseError>) decreases room(e), 0nat, 0int {
    let k = resolve(e.path, s);
    if c.dom().contains(k) { (c, Ok(c[k])) }
    else if e.prog.contains(k) { (c, Err(ParseError::CircularDependency)) }
    else if !e.files.dom().contains(k) { (c, Err(ParseError::CannotReadFile)) }
    else if room(inner(e, k)) < room(e) {
        match gdoc(inner(e, k), c, DataType::Json, Map::empty(), true, toks_of(e.files[k])) { (c2, Ok((_, v))) => (c2.insert(k, v), Ok(v)), (c2, Err(x)) => (c2, Err(x)) }
    } else { (c, Err(ParseError::CannotReadFile)) }
}
pub open spec fn unfinished(t: Seq<PTok>, x: ParseError) -> Doc { Err(if t.len() == 0 { ParseError::UnexpectedEnd } else { x }) }
// a document: const and import statements, then one value; nl: a new statement may start here
pub open spec fn gdoc(e: Env, c: Vals, d: DataType, ks: Vals, nl: bool, t: Seq<PTok>) -> (Vals, Doc) decreases room(e), t.len(), 2int {
    if t.len() == 0 { (c, Err(ParseError::UnexpectedEnd)) }
    else if t[0] is Nl { gdoc(e, c, d, ks, true, t.skip(1)) }
    else if op(t[0], ';') && !nl { gdoc(e, c, d, ks, true, t.skip(1)) }
    else if !nl { (c, Err(ParseError::NewLineExpected)) }
    else if id(t[0], "const"@) { gconst(e, c, djs_of(d), ks, t.skip(1)) }
    else if id(t[0], "export"@) && mjs_ok(d) {
        if t.len() > 1 && id(t[1], "default"@) { gend(gval(e, c, false, DataType::Mjs, ks, t.skip(2))) } else { (c, unfinished(t.skip(1), ParseError::WrongExportStatement)) } }
    else if id(t[0], "module"@) && cjs_ok(d) {
        if t.len() > 3 && op(t[1], '.') && id(t[2], "exports"@) && op(t[3], '=') { gend(gval(e, c, false, DataType::Cjs, ks, t.skip(4))) }
        else if t.len() == 1 || (t.len() == 2 && op(t[1], '.')) || (t.len() == 3 && op(t[1], '.') && id(t[2], "exports"@)) { (c, Err(ParseError::UnexpectedEnd)) }
        else { (c, Err(ParseError::WrongExportStatement)) } }
    else if id(t[0], "import"@) && mjs_ok(d) { gimport(e, c, ks, t.skip(1)) }
    else { gend(gval(e, c, false, d, ks, t)) }
}
pub open spec fn gconst(e: Env, c: Vals, d: DataType, ks: Vals, t: Seq<PTok>) -> (Vals, Doc) decreases room(e), t.len(), 2int {
    if t.len() > 1 && t[0] is Id && op(t[1], '=') {
        match gval(e, c, true, d, ks, t.skip(2)) {
            (c2, GR::Got(d2, v, r)) => if r.len() < t.len() { gdoc(e, c2, d2, ks.insert(t[0]->Id_0, v), false, r) } else { (c, Err(ParseError::UnexpectedEnd)) },
            (c2, GR::Err(x)) => (c2, Err(x)),
            (c2, GR::More) => (c2, Err(ParseError::UnexpectedEnd)) } }
    else if t.len() == 0 || (t.len() == 1 && t[0] is Id) { (c, Err(ParseError::UnexpectedEnd)) }
    else { (c, Err(ParseError::WrongConstStatement)) }
}
pub open spec fn gimport(e: Env, c: Vals, ks: Vals, t: Seq<PTok>) -> (Vals, Doc) decreases room(e), t.len(), 2int {
    if t.len() > 2 && t[0] is Id && id(t[1], "from"@) && t[2] is Str {
        match load(e, c, t[2]->Str_0) { (c2, Ok(v)) => gdoc(e, c2, DataType::Mjs, ks.insert(t[0]->Id_0, v), false, t.skip(3)), (c2, Err(x)) => (c2, Err(x)) } }
    else if t.len() == 0 || (t.len() == 1 && t[0] is Id) || (t.len() == 2 && t[0] is Id && id(t[1], "from"@)) { (c, Err(ParseError::UnexpectedEnd)) }
    else { (c, Err(ParseError::WrongImportStatement)) }
}
pub open spec fn only_nl(t: Seq<PTok>) -> bool { forall|i: int| 0 <= i < t.len() ==> t[i] is Nl }
// nothing may follow the value of a document
pub open spec fn gend(r: GC) -> (Vals, Doc) {
    match r.1 {
        GR::Got(d, v, t) => (r.0, if only_nl(t) { Ok((d, v)) } else { Err(ParseError::UnexpectedToken) }),
        GR::Err(x) => (r.0, Err(x)),
        GR::More => (r.0, Err(ParseError::UnexpectedEnd)),
    }
}
