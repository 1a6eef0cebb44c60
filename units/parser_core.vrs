//@ include gram_spec.vrs
//@ file nanvm-lib/src/parser/shared.rs
//@ gsub BTreeMap<String, Any<D>> => StrMap<D>
//@ gsub BTreeMap<String, Any<M::Dealloc>> => StrMap<M::Dealloc>
//@ gsub BTreeSet<String> => StrSet
//@ gsub BTreeMap::default() => StrMap::vnew()
//@ gsub pub struct ModuleCache => #[verifier::reject_recursive_types(D)] pub struct ModuleCache
//@ gsub pub enum JsonStackElement => #[verifier::reject_recursive_types(D)] pub enum JsonStackElement
//@ gsub pub struct JsonStackObject => #[verifier::reject_recursive_types(D)] pub struct JsonStackObject
//@ gsub pub enum JsonElement => #[verifier::reject_recursive_types(D)] pub enum JsonElement
//@ gsub pub struct ParseResult => #[verifier::reject_recursive_types(D)] pub struct ParseResult
//@ gsub pub enum JsonToken => #[verifier::reject_recursive_types(D)] pub enum JsonToken
//@ gsub pub struct AnySuccess => #[verifier::reject_recursive_types(M)] pub struct AnySuccess
//@ gsub pub enum AnyResult => #[verifier::reject_recursive_types(M)] pub enum AnyResult
//@ gsub pub struct AnyState => #[verifier::reject_recursive_types(M)] pub struct AnyState
//@ gsub pub struct ConstState => #[verifier::reject_recursive_types(M)] pub struct ConstState
//@ gsub pub enum JsonState => #[verifier::reject_recursive_types(M)] pub enum JsonState
//@ gsub pub struct RootState => #[verifier::reject_recursive_types(M)] pub struct RootState
//@ gsub pub struct Context<'a, => #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(I)] pub struct Context<'a,
//@ gsub module_cache: &'a mut ModuleCache<M::Dealloc> => module_cache: ModuleCache<M::Dealloc>
//@ gsub String::default() => vstring_new()
//@ gsub s.encode_utf16().collect::<Vec<_>>() => vutf16(&s)
//@ gsub .into_iter().map(|kv| => .into_iter().vmap(|kv: (String, Any<M::Dealloc>)| -> (r: (JsStringRef<M::Dealloc>, Any<M::Dealloc>)) ensures r.0.view() == u16s(kv.0@), r.1 == kv.1 {
//@ gsub kv.1)).collect::<Vec<_>>() => kv.1) })
//@ gsub s == "require" => vseq(&s, "require")
//@ gsub s.as_ref() => s.as_str()
//@ gsub [].cast() => Vec::new()
//@ gsub replace(&mut context.path, current_path.clone()) => vreplace(&mut context.path, current_path.clone())
//@ gsub impl Iterator<Item = JsonToken<M::Dealloc>> => impl VIter<Item = JsonToken<M::Dealloc>>
//@ gsub tokens.into_iter() => tokens.vinto()
//@ raw
// ---------------------------------------------------------------------------------------------
// The parser's states as values, and what one token does to them.
// ---------------------------------------------------------------------------------------------
pub enum AFr { Obj(Vals, Seq<char>), Arr(Seq<AVal>) }
pub enum ACur { None, Fr(AFr), Val(AVal) }
pub struct APs { pub d: DataType, pub st: ParsingStatus, pub cur: ACur, pub stack: Seq<AFr>, pub ks: Vals }
pub enum AOut { Cont(APs), Succ(APs, AVal), Err(ParseError) }
pub enum ARt { Initial, Export, Module, ModuleDot, ModuleDotExports, Const, ConstId(Seq<char>), Import, ImportId(Seq<char>), ImportIdFrom(Seq<char>) }
pub enum AJs { Root(ARt, APs, bool), Const(Seq<char>, APs), Module(APs), Res(DataType, AVal), Err(ParseError) }
pub open spec fn no_key() -> Seq<char> { Seq::empty() }
pub open spec fn push_value(p: APs, v: AVal) -> AOut {
    match p.cur {
        ACur::None => AOut::Succ(APs { st: ParsingStatus::Initial, ..p }, v),
        ACur::Fr(AFr::Arr(a)) => AOut::Cont(APs { st: ParsingStatus::ArrayValue, cur: ACur::Fr(AFr::Arr(a.push(v))), ..p }),
        ACur::Fr(AFr::Obj(m, k)) => AOut::Cont(APs { st: ParsingStatus::ObjectValue, cur: ACur::Fr(AFr::Obj(m.insert(k, v), no_key())), ..p }),
        ACur::Val(_) => AOut::Err(ParseError::UnexpectedToken),
    }
}
pub open spec fn pushed(p: APs) -> Seq<AFr> { if p.cur is Fr { p.stack.push(p.cur->Fr_0) } else { p.stack } }
pub open spec fn popped(p: APs) -> APs { APs { cur: if p.stack.len() > 0 { ACur::Fr(p.stack.last()) } else { ACur::None }, stack: if p.stack.len() > 0 { p.stack.drop_last() } else { p.stack }, ..p } }
pub open spec fn s_begin_array(p: APs) -> APs { APs { st: ParsingStatus::ArrayBegin, cur: ACur::Fr(AFr::Arr(Seq::empty())), stack: pushed(p), ..p } }
pub open spec fn s_begin_object(p: APs) -> APs { APs { st: ParsingStatus::ObjectBegin, cur: ACur::Fr(AFr::Obj(Map::empty(), no_key())), stack: pushed(p), ..p } }
pub open spec fn s_begin_import(p: APs) -> APs { APs { d: DataType::Cjs, st: ParsingStatus::ImportBegin, cur: ACur::None, stack: pushed(p), ..p } }
pub open spec fn s_end_import(p: APs) -> AOut { push_value(APs { st: ParsingStatus::Initial, ..popped(p) }, p.cur->Val_0) }
pub open spec fn s_end_array(p: APs) -> AOut { push_value(popped(p), AVal::Arr(p.cur->Fr_0->Arr_0)) }
pub open spec fn s_end_object(p: APs) -> AOut { push_value(popped(p), obj(p.cur->Fr_0->Obj_0)) }
pub open spec fn s_key(p: APs, s: Seq<char>) -> AOut { if p.cur is Fr && p.cur->Fr_0 is Obj { AOut::Cont(APs { st: ParsingStatus::ObjectKey, cur: ACur::Fr(AFr::Obj(p.cur->Fr_0->Obj_0, s)), ..p }) } else { AOut::Err(ParseError::UnexpectedToken) } }
pub open spec fn unexp() -> AOut { AOut::Err(ParseError::UnexpectedToken) }
pub open spec fn s_value(p: APs, t: PTok) -> AOut {
    if op(t, '[') { AOut::Cont(s_begin_array(p)) }
    else if op(t, '{') { AOut::Cont(s_begin_object(p)) }
    else if id(t, "require"@) && cjs_ok(p.d) { AOut::Cont(s_begin_import(p)) }
    else { match try_any(t, p.ks) { Some(v) => push_value(p, v), None => unexp() } }
}
pub open spec fn s_item(p: APs, t: PTok) -> AOut { if op(t, ']') { s_end_array(p) } else { s_value(p, t) } }
pub open spec fn s_array_value(p: APs, t: PTok) -> AOut { if op(t, ']') { s_end_array(p) } else if op(t, ',') { AOut::Cont(APs { st: ParsingStatus::ArrayComma, ..p }) } else { unexp() } }
pub open spec fn s_member(p: APs, t: PTok) -> AOut { if op(t, '}') { s_end_object(p) } else if is_key(t, p.d) { s_key(p, key_of(t)) } else { unexp() } }
pub open spec fn s_object_next(p: APs, t: PTok) -> AOut { if op(t, '}') { s_end_object(p) } else if op(t, ',') { AOut::Cont(APs { st: ParsingStatus::ObjectComma, ..p }) } else { unexp() } }
pub open spec fn s_object_key(p: APs, t: PTok) -> AOut { if op(t, ':') { AOut::Cont(APs { st: ParsingStatus::ObjectColon, ..p }) } else { unexp() } }
pub open spec fn s_import_begin(p: APs, t: PTok) -> AOut { if op(t, '(') { AOut::Cont(APs { st: ParsingStatus::ImportValue, ..p }) } else { AOut::Err(ParseError::WrongRequireStatement) } }
pub open spec fn s_import_end(p: APs, t: PTok) -> AOut { if op(t, ')') { s_end_import(p) } else { AOut::Err(ParseError::WrongRequireStatement) } }
// every token but the name of a required module
pub open spec fn s_any(p: APs, t: PTok) -> AOut {
    match p.st {
        ParsingStatus::Initial | ParsingStatus::ObjectColon => s_value(p, t),
        ParsingStatus::ArrayBegin | ParsingStatus::ArrayComma => s_item(p, t),
        ParsingStatus::ArrayValue => s_array_value(p, t),
        ParsingStatus::ObjectBegin | ParsingStatus::ObjectComma => s_member(p, t),
        ParsingStatus::ObjectKey => s_object_key(p, t),
        ParsingStatus::ObjectValue => s_object_next(p, t),
        ParsingStatus::ImportBegin => s_import_begin(p, t),
        ParsingStatus::ImportValue => AOut::Err(ParseError::WrongRequireStatement),
        ParsingStatus::ImportEnd => s_import_end(p, t),
    }
}
pub open spec fn s_import_value(e: Env, c: Vals, p: APs, t: PTok) -> (Vals, AOut) {
    match t {
        PTok::Str(s) => match load(e, c, s) { (c2, Ok(v)) => (c2, AOut::Cont(APs { st: ParsingStatus::ImportEnd, cur: ACur::Val(v), ..p })), (c2, Err(x)) => (c2, AOut::Err(x)) },
        _ => (c, AOut::Err(ParseError::WrongRequireStatement)),
    }
}
pub open spec fn anystep(e: Env, c: Vals, p: APs, t: PTok) -> (Vals, AOut) { if p.st is ImportValue { s_import_value(e, c, p, t) } else { (c, s_any(p, t)) } }
// what holds between tokens
pub open spec fn in_arr(p: APs) -> bool { p.cur is Fr && p.cur->Fr_0 is Arr }
pub open spec fn in_obj(p: APs) -> bool { p.cur is Fr && p.cur->Fr_0 is Obj }
pub open spec fn wf(p: APs) -> bool {
    match p.st {
        ParsingStatus::Initial => p.cur is None && p.stack.len() == 0,
        ParsingStatus::ArrayBegin | ParsingStatus::ArrayComma | ParsingStatus::ArrayValue => in_arr(p),
        ParsingStatus::ObjectBegin | ParsingStatus::ObjectComma | ParsingStatus::ObjectKey | ParsingStatus::ObjectColon | ParsingStatus::ObjectValue => in_obj(p),
        ParsingStatus::ImportBegin | ParsingStatus::ImportValue => p.cur is None,
        ParsingStatus::ImportEnd => p.cur is Val,
    }
}
pub open spec fn wfo(o: AOut) -> bool { match o { AOut::Cont(p) => wf(p), AOut::Succ(p, _) => wf(p) && p.st is Initial, AOut::Err(_) => true } }
pub open spec fn a_const(k: Seq<char>, o: AOut) -> AJs { match o { AOut::Cont(p) => AJs::Const(k, p), AOut::Succ(p, v) => AJs::Root(ARt::Initial, APs { ks: p.ks.insert(k, v), ..p }, false), AOut::Err(x) => AJs::Err(x) } }
pub open spec fn a_mod(o: AOut) -> AJs { match o { AOut::Cont(p) => AJs::Module(p), AOut::Succ(p, v) => AJs::Res(p.d, v), AOut::Err(x) => AJs::Err(x) } }
pub open spec fn to(r: ARt, p: APs) -> AJs { AJs::Root(r, p, false) }
pub type ARs = (AJs, Option<(Seq<char>, Seq<char>)>);
pub open spec fn s_root(r: ARt, p: APs, nl: bool, t: PTok) -> ARs {
    match r {
        ARt::Initial =>
            if t is Nl || (op(t, ';') && !nl) { (AJs::Root(r, p, true), None) }
            else if !nl { (AJs::Err(ParseError::NewLineExpected), None) }
            else if id(t, "const"@) { (to(ARt::Const, APs { d: djs_of(p.d), ..p }), None) }
            else if id(t, "export"@) && mjs_ok(p.d) { (to(ARt::Export, APs { d: DataType::Mjs, ..p }), None) }
            else if id(t, "module"@) && cjs_ok(p.d) { (to(ARt::Module, APs { d: DataType::Cjs, ..p }), None) }
            else if id(t, "import"@) && mjs_ok(p.d) { (to(ARt::Import, APs { d: DataType::Mjs, ..p }), None) }
            else { (a_mod(s_any(p, t)), None) },
        ARt::Export => (if id(t, "default"@) { AJs::Module(p) } else { AJs::Err(ParseError::WrongExportStatement) }, None),
        ARt::Module => (if op(t, '.') { to(ARt::ModuleDot, p) } else { AJs::Err(ParseError::WrongExportStatement) }, None),
        ARt::ModuleDot => (if id(t, "exports"@) { to(ARt::ModuleDotExports, p) } else { AJs::Err(ParseError::WrongExportStatement) }, None),
        ARt::ModuleDotExports => (if op(t, '=') { AJs::Module(p) } else { AJs::Err(ParseError::WrongExportStatement) }, None),
        ARt::Const => (match t { PTok::Id(s) => to(ARt::ConstId(s), p), _ => AJs::Err(ParseError::WrongConstStatement) }, None),
        ARt::ConstId(s) => (if op(t, '=') { AJs::Const(s, p) } else { AJs::Err(ParseError::WrongConstStatement) }, None),
        ARt::Import => (match t { PTok::Id(s) => to(ARt::ImportId(s), p), _ => AJs::Err(ParseError::WrongImportStatement) }, None),
        ARt::ImportId(s) => (if id(t, "from"@) { to(ARt::ImportIdFrom(s), p) } else { AJs::Err(ParseError::WrongImportStatement) }, None),
        ARt::ImportIdFrom(s) => match t { PTok::Str(m) => (to(ARt::Initial, p), Some((s, m))), _ => (AJs::Err(ParseError::WrongImportStatement), None) },
    }
}
pub open spec fn s_root_full(e: Env, c: Vals, r: ARt, p: APs, nl: bool, t: PTok) -> (Vals, AJs) {
    match s_root(r, p, nl, t) {
        (j, None) => (c, j),
        (j, Some((k, m))) => match load(e, c, m) { (c2, Ok(v)) => (c2, to(ARt::Initial, APs { ks: p.ks.insert(k, v), ..p })), (c2, Err(x)) => (c2, AJs::Err(x)) },
    }
}
pub open spec fn s_const(e: Env, c: Vals, k: Seq<char>, p: APs, t: PTok) -> (Vals, AJs) {
    if op(t, ';') { (c, AJs::Err(ParseError::UnexpectedToken)) } else { let r = anystep(e, c, p, t); (r.0, a_const(k, r.1)) }
}
pub open spec fn jstep(e: Env, c: Vals, j: AJs, t: PTok) -> (Vals, AJs) {
    match j {
        AJs::Root(r, p, nl) => s_root_full(e, c, r, p, nl, t),
        AJs::Const(k, p) => if t is Nl { (c, j) } else { s_const(e, c, k, p, t) },
        AJs::Module(p) => if t is Nl { (c, j) } else { let r = anystep(e, c, p, t); (r.0, a_mod(r.1)) },
        AJs::Res(d, v) => if t is Nl { (c, j) } else { (c, AJs::Err(ParseError::UnexpectedToken)) },
        AJs::Err(_) => (c, j),
    }
}
// one token given by hand, with no files at hand: what a root statement imports is for the caller to load, and the name of a required module is given up
pub open spec fn s_push(j: AJs, t: PTok) -> ARs {
    match j {
        AJs::Root(r, p, nl) => s_root(r, p, nl, t),
        AJs::Const(k, p) => (if t is Nl { j } else if op(t, ';') { AJs::Err(ParseError::UnexpectedToken) } else { a_const(k, s_any(p, t)) }, None),
        AJs::Module(p) => (if t is Nl { j } else { a_mod(s_any(p, t)) }, None),
        AJs::Res(d, v) => (if t is Nl { j } else { AJs::Err(ParseError::UnexpectedToken) }, None),
        AJs::Err(_) => (j, None),
    }
}
pub open spec fn asks(j: AJs) -> bool { match j { AJs::Const(_, p) | AJs::Module(p) => p.st is ImportValue, _ => false } }
pub open spec fn pushes(j: AJs, t: Seq<PTok>) -> Option<AJs> decreases t.len() {
    if t.len() == 0 { Some(j) } else if asks(j) || s_push(j, t[0]).1 is Some { None } else { pushes(s_push(j, t[0]).0, t.skip(1)) }
}
// tokens given one by one end in what the parser of files makes of them, wherever no module is named
pub proof fn pushed_one_by_one(e: Env, c: Vals, j: AJs, t: Seq<PTok>)
    requires wfj(j), pushes(j, t) is Some
    ensures jrun(e, c, j, t) == (c, jend(pushes(j, t)->Some_0)) decreases t.len()
{
    if t.len() > 0 { assert(jstep(e, c, j, t[0]) == (c, s_push(j, t[0]).0)); wf_push(j, t[0]); pushed_one_by_one(e, c, s_push(j, t[0]).0, t.skip(1)); }
}
pub proof fn wf_push(j: AJs, t: PTok) requires wfj(j), !asks(j) ensures wfj(s_push(j, t).0) { }
pub open spec fn jend(j: AJs) -> Doc { match j { AJs::Res(d, v) => Ok((d, v)), AJs::Err(x) => Err(x), _ => Err(ParseError::UnexpectedEnd) } }
pub open spec fn jrun(e: Env, c: Vals, j: AJs, t: Seq<PTok>) -> (Vals, Doc) decreases t.len() {
    if t.len() == 0 { (c, jend(j)) } else { jrun(e, jstep(e, c, j, t[0]).0, jstep(e, c, j, t[0]).1, t.skip(1)) }
}
pub open spec fn wfj(j: AJs) -> bool {
    match j {
        AJs::Root(_, p, _) => wf(p) && p.st is Initial,
        AJs::Const(_, p) | AJs::Module(p) => wf(p),
        _ => true,
    }
}
// ---------------------------------------------------------------------------------------------
// One token at a time is the same as the grammar.
// ---------------------------------------------------------------------------------------------
pub enum W { Const(Seq<char>), Module }
pub open spec fn jw(w: W, p: APs) -> AJs { match w { W::Const(k) => AJs::Const(k, p), W::Module => AJs::Module(p) } }
pub open spec fn jo(w: W, o: AOut) -> AJs { match w { W::Const(k) => a_const(k, o), W::Module => a_mod(o) } }
// a value was read where p expects one
pub open spec fn after(e: Env, w: W, p: APs, r: GC) -> (Vals, Doc) {
    match r.1 {
        GR::Got(d, v, t) => jrun(e, r.0, jo(w, push_value(APs { d, ..p }, v)), t),
        GR::Err(x) => (r.0, Err(x)),
        GR::More => (r.0, Err(ParseError::UnexpectedEnd)),
    }
}
pub open spec fn outer(p: APs) -> bool { !(p.cur is Val) && (p.cur is None ==> p.stack.len() == 0) }
pub open spec fn shorter(r: GC, t: Seq<PTok>) -> bool { r.1 is Got ==> r.1->Got_2.len() < t.len() }
pub proof fn run_err(e: Env, c: Vals, x: ParseError, t: Seq<PTok>) ensures jrun(e, c, AJs::Err(x), t) == (c, Doc::Err(x)) decreases t.len() { if t.len() > 0 { run_err(e, c, x, t.skip(1)); } }
pub proof fn run_res(e: Env, c: Vals, d: DataType, v: AVal, t: Seq<PTok>) ensures jrun(e, c, AJs::Res(d, v), t) == (c, if only_nl(t) { Doc::Ok((d, v)) } else { Doc::Err(ParseError::UnexpectedToken) }) decreases t.len() {
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { run_res(e, c, d, v, u); assert(only_nl(t) == only_nl(u)) by { if only_nl(t) { assert forall|i: int| 0 <= i < u.len() implies u[i] is Nl by { assert(t[i + 1] is Nl); } } else { let i = choose|i: int| 0 <= i < t.len() && !(t[i] is Nl); assert(!(u[i - 1] is Nl)); } } }
        else { run_err(e, c, ParseError::UnexpectedToken, u); }
    }
}
pub open spec fn vpos(p: APs) -> bool { p.st is Initial || p.st is ObjectColon || p.st is ArrayBegin || p.st is ArrayComma }
pub open spec fn kf(w: W) -> bool { w is Const }
pub proof fn l_val(e: Env, c: Vals, w: W, p: APs, t: Seq<PTok>)
    requires vpos(p), outer(p), (p.st is ArrayBegin || p.st is ArrayComma) ==> t.len() > 0 && !(t[0] is Nl) && !op(t[0], ']')
    ensures shorter(gval(e, c, kf(w), p.d, p.ks, t), t), jrun(e, c, jw(w, p), t) == after(e, w, p, gval(e, c, kf(w), p.d, p.ks, t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_val(e, c, w, p, u); }
        else if op(t[0], '[') { let q = s_begin_array(p); l_arr(e, c, w, q, Seq::empty(), u); back(p, q); }
        else if op(t[0], '{') { let q = s_begin_object(p); l_obj(e, c, w, q, Map::empty(), no_key(), u); back(p, q); }
        else if id(t[0], "require"@) && cjs_ok(p.d) { let q = s_begin_import(p); l_req(e, c, w, q, u); back(p, q); }
        else { match try_any(t[0], p.ks) { Some(v) => {} None => { run_err(e, c, ParseError::UnexpectedToken, u); } } }
    }
}
// taking off the frame that was put on
pub proof fn back(p: APs, q: APs) requires outer(p), q.stack == pushed(p), q.ks == p.ks ensures popped(q).cur == p.cur, popped(q).stack =~= p.stack,
    forall|w: W, r: GC, e: Env| #[trigger] after(e, w, popped(q), r) == after(e, w, p, r)
{
    assert(popped(q).stack =~= p.stack);
    assert forall|w: W, r: GC, e: Env| #[trigger] after(e, w, popped(q), r) == after(e, w, p, r) by {
        if r.1 is Got { let (a, b) = (APs { d: r.1->Got_0, ..popped(q) }, APs { d: r.1->Got_0, ..p }); assert(push_value(a, r.1->Got_1) == push_value(b, r.1->Got_1)); }
    }
}
pub proof fn l_arr(e: Env, c: Vals, w: W, p: APs, a: Seq<AVal>, t: Seq<PTok>)
    requires p.st is ArrayBegin || p.st is ArrayComma, p.cur == ACur::Fr(AFr::Arr(a))
    ensures shorter(garr(e, c, kf(w), p.d, p.ks, a, t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), garr(e, c, kf(w), p.d, p.ks, a, t))
    decreases t.len(), 1int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_arr(e, c, w, p, a, u); }
        else if op(t[0], ']') { }
        else {
            l_val(e, c, w, p, t);
            let r = gval(e, c, kf(w), p.d, p.ks, t);
            if r.1 is Got { let (d, v, s) = (r.1->Got_0, r.1->Got_1, r.1->Got_2); let q = push_value(APs { d, ..p }, v)->Cont_0; l_arr2(e, r.0, w, q, a.push(v), s); same(e, w, p, q); }
        }
    }
}
// `after` does not look at the data type, the status or the current frame
pub proof fn same(e: Env, w: W, p: APs, q: APs) requires q.stack == p.stack, q.ks == p.ks ensures forall|r: GC| #[trigger] after(e, w, popped(p), r) == after(e, w, popped(q), r) {
    assert forall|r: GC| #[trigger] after(e, w, popped(p), r) == after(e, w, popped(q), r) by {
        if r.1 is Got { let (a, b) = (APs { d: r.1->Got_0, ..popped(p) }, APs { d: r.1->Got_0, ..popped(q) }); assert(push_value(a, r.1->Got_1) == push_value(b, r.1->Got_1)); }
    }
}
pub proof fn l_arr2(e: Env, c: Vals, w: W, p: APs, a: Seq<AVal>, t: Seq<PTok>)
    requires p.st is ArrayValue, p.cur == ACur::Fr(AFr::Arr(a))
    ensures shorter(garr2(e, c, kf(w), p.d, p.ks, a, t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), garr2(e, c, kf(w), p.d, p.ks, a, t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_arr2(e, c, w, p, a, u); }
        else if op(t[0], ']') { }
        else if op(t[0], ',') { let q = APs { st: ParsingStatus::ArrayComma, ..p }; l_arr(e, c, w, q, a, u); same(e, w, p, q); }
        else { run_err(e, c, ParseError::UnexpectedToken, u); }
    }
}
pub proof fn l_obj(e: Env, c: Vals, w: W, p: APs, m: Vals, k: Seq<char>, t: Seq<PTok>)
    requires p.st is ObjectBegin || p.st is ObjectComma, p.cur == ACur::Fr(AFr::Obj(m, k))
    ensures shorter(gobj(e, c, kf(w), p.d, p.ks, m, t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), gobj(e, c, kf(w), p.d, p.ks, m, t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_obj(e, c, w, p, m, k, u); }
        else if op(t[0], '}') { }
        else if is_key(t[0], p.d) { let q = s_key(p, key_of(t[0]))->Cont_0; l_key(e, c, w, q, m, key_of(t[0]), u); same(e, w, p, q); }
        else { run_err(e, c, ParseError::UnexpectedToken, u); }
    }
}
pub proof fn l_key(e: Env, c: Vals, w: W, p: APs, m: Vals, k: Seq<char>, t: Seq<PTok>)
    requires p.st is ObjectKey, p.cur == ACur::Fr(AFr::Obj(m, k))
    ensures shorter(gkey(e, c, kf(w), p.d, p.ks, m, k, t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), gkey(e, c, kf(w), p.d, p.ks, m, k, t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_key(e, c, w, p, m, k, u); }
        else if op(t[0], ':') {
            let o = APs { st: ParsingStatus::ObjectColon, ..p };
            l_val(e, c, w, o, u);
            let r = gval(e, c, kf(w), p.d, p.ks, u);
            if r.1 is Got { let (d, v, s) = (r.1->Got_0, r.1->Got_1, r.1->Got_2); let q = push_value(APs { d, ..o }, v)->Cont_0; l_obj2(e, r.0, w, q, m.insert(k, v), s); same(e, w, p, q); }
        }
        else { run_err(e, c, ParseError::UnexpectedToken, u); }
    }
}
pub proof fn l_obj2(e: Env, c: Vals, w: W, p: APs, m: Vals, t: Seq<PTok>)
    requires p.st is ObjectValue, p.cur == ACur::Fr(AFr::Obj(m, no_key()))
    ensures shorter(gobj2(e, c, kf(w), p.d, p.ks, m, t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), gobj2(e, c, kf(w), p.d, p.ks, m, t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_obj2(e, c, w, p, m, u); }
        else if op(t[0], '}') { }
        else if op(t[0], ',') { let q = APs { st: ParsingStatus::ObjectComma, ..p }; l_obj(e, c, w, q, m, no_key(), u); same(e, w, p, q); }
        else { run_err(e, c, ParseError::UnexpectedToken, u); }
    }
}
pub proof fn l_req(e: Env, c: Vals, w: W, p: APs, t: Seq<PTok>)
    requires p.st is ImportBegin, p.cur is None, p.d is Cjs
    ensures shorter(greq(e, c, kf(w), t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), greq(e, c, kf(w), t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_req(e, c, w, p, u); }
        else if op(t[0], '(') { let q = APs { st: ParsingStatus::ImportValue, ..p }; l_req2(e, c, w, q, u); same(e, w, p, q); }
        else { run_err(e, c, bad_req(kf(w), t[0]), u); }
    }
}
pub proof fn l_req2(e: Env, c: Vals, w: W, p: APs, t: Seq<PTok>)
    requires p.st is ImportValue, p.cur is None, p.d is Cjs
    ensures shorter(greq2(e, c, kf(w), t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), greq2(e, c, kf(w), t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_req2(e, c, w, p, u); }
        else if t[0] is Str { let r = load(e, c, t[0]->Str_0); match r.1 { Ok(v) => { let q = APs { st: ParsingStatus::ImportEnd, cur: ACur::Val(v), ..p }; l_req3(e, r.0, w, q, v, u); same(e, w, p, q); } Err(x) => { run_err(e, r.0, x, u); } } }
        else { run_err(e, c, bad_req(kf(w), t[0]), u); }
    }
}
pub proof fn l_req3(e: Env, c: Vals, w: W, p: APs, v: AVal, t: Seq<PTok>)
    requires p.st is ImportEnd, p.cur == ACur::Val(v), p.d is Cjs
    ensures shorter(greq3(c, kf(w), v, t), t), jrun(e, c, jw(w, p), t) == after(e, w, popped(p), greq3(c, kf(w), v, t))
    decreases t.len(), 0int
{
    if t.len() > 0 {
        let u = t.skip(1);
        if t[0] is Nl { l_req3(e, c, w, p, v, u); }
        else if op(t[0], ')') { }
        else { run_err(e, c, bad_req(kf(w), t[0]), u); }
    }
}
pub open spec fn init_ps(d: DataType, ks: Vals) -> APs { APs { d, st: ParsingStatus::Initial, cur: ACur::None, stack: Seq::empty(), ks } }
pub proof fn l_end(e: Env, c: Vals, p: APs, t: Seq<PTok>) requires p == init_ps(p.d, p.ks) ensures jrun(e, c, AJs::Module(p), t) == gend(gval(e, c, false, p.d, p.ks, t)) {
    l_val(e, c, W::Module, p, t);
    let r = gval(e, c, false, p.d, p.ks, t);
    if r.1 is Got { run_res(e, r.0, r.1->Got_0, r.1->Got_1, r.1->Got_2); }
}
pub proof fn l_one(e: Env, c: Vals, j: AJs, t: Seq<PTok>) requires t.len() > 0 ensures jrun(e, c, j, t) == jrun(e, jstep(e, c, j, t[0]).0, jstep(e, c, j, t[0]).1, t.skip(1)) {}
pub proof fn l_doc(e: Env, c: Vals, p: APs, nl: bool, t: Seq<PTok>)
    requires p == init_ps(p.d, p.ks)
    ensures jrun(e, c, AJs::Root(ARt::Initial, p, nl), t) == gdoc(e, c, p.d, p.ks, nl, t)
    decreases t.len()
{
    if t.len() > 0 {
        let j = AJs::Root(ARt::Initial, p, nl);
        let u = t.skip(1); let u2 = u.skip(1); let u3 = u2.skip(1); let u4 = u3.skip(1);
        assert(t.len() > 1 ==> u[0] == t[1] && u2 =~= t.skip(2)); assert(t.len() > 2 ==> u2[0] == t[2] && u3 =~= t.skip(3)); assert(t.len() > 3 ==> u3[0] == t[3] && u4 =~= t.skip(4));
        assert(u.len() == t.len() - 1);
        reveal_strlit("const"); reveal_strlit("export"); reveal_strlit("module"); reveal_strlit("import");
        l_one(e, c, j, t);
        if t[0] is Nl || (op(t[0], ';') && !nl) { l_doc(e, c, p, true, u); }
        else if !nl { run_err(e, c, ParseError::NewLineExpected, u); }
        else if id(t[0], "const"@) { l_const(e, c, APs { d: djs_of(p.d), ..p }, u); }
        else if id(t[0], "export"@) && mjs_ok(p.d) {
            let q = APs { d: DataType::Mjs, ..p };
            if u.len() > 0 { l_one(e, c, to(ARt::Export, q), u); if id(u[0], "default"@) { l_end(e, c, q, u2); } else { run_err(e, c, ParseError::WrongExportStatement, u2); } }
        }
        else if id(t[0], "module"@) && cjs_ok(p.d) {
            let q = APs { d: DataType::Cjs, ..p };
            if u.len() > 0 { l_one(e, c, to(ARt::Module, q), u);
                if op(u[0], '.') { if u2.len() > 0 { l_one(e, c, to(ARt::ModuleDot, q), u2);
                    if id(u2[0], "exports"@) { if u3.len() > 0 { l_one(e, c, to(ARt::ModuleDotExports, q), u3);
                        if op(u3[0], '=') { l_end(e, c, q, u4); } else { run_err(e, c, ParseError::WrongExportStatement, u4); } } }
                    else { run_err(e, c, ParseError::WrongExportStatement, u3); } } }
                else { run_err(e, c, ParseError::WrongExportStatement, u2); } }
        }
        else if id(t[0], "import"@) && mjs_ok(p.d) { l_import(e, c, APs { d: DataType::Mjs, ..p }, u); }
        else {
            l_end(e, c, p, t);
            l_one(e, c, AJs::Module(p), t);
        }
    }
}
pub proof fn l_const(e: Env, c: Vals, p: APs, t: Seq<PTok>)
    requires p == init_ps(p.d, p.ks)
    ensures jrun(e, c, to(ARt::Const, p), t) == gconst(e, c, p.d, p.ks, t)
    decreases t.len()
{
    let u = t.skip(1); let u2 = u.skip(1);
    assert(t.len() > 1 ==> u[0] == t[1] && u2 =~= t.skip(2));
    if t.len() > 0 {
        l_one(e, c, to(ARt::Const, p), t);
        if t[0] is Id {
            let k = t[0]->Id_0;
            if u.len() > 0 {
                l_one(e, c, to(ARt::ConstId(k), p), u);
                if op(u[0], '=') {
                    l_val(e, c, W::Const(k), p, u2);
                    let r = gval(e, c, true, p.d, p.ks, u2);
                    if r.1 is Got { let q = init_ps(r.1->Got_0, p.ks.insert(k, r.1->Got_1)); l_doc(e, r.0, q, false, r.1->Got_2); }
                } else { run_err(e, c, ParseError::WrongConstStatement, u2); }
            }
        } else { run_err(e, c, ParseError::WrongConstStatement, u); }
    }
}
pub proof fn l_import(e: Env, c: Vals, p: APs, t: Seq<PTok>)
    requires p == init_ps(DataType::Mjs, p.ks)
    ensures jrun(e, c, to(ARt::Import, p), t) == gimport(e, c, p.ks, t)
    decreases t.len()
{
    let u = t.skip(1); let u2 = u.skip(1); let u3 = u2.skip(1);
    assert(t.len() > 1 ==> u[0] == t[1] && u2 =~= t.skip(2)); assert(t.len() > 2 ==> u2[0] == t[2] && u3 =~= t.skip(3));
    if t.len() > 0 {
        l_one(e, c, to(ARt::Import, p), t);
        if t[0] is Id {
            let k = t[0]->Id_0;
            if u.len() > 0 {
                l_one(e, c, to(ARt::ImportId(k), p), u);
                if id(u[0], "from"@) {
                    if u2.len() > 0 {
                        l_one(e, c, to(ARt::ImportIdFrom(k), p), u2);
                        if u2[0] is Str { let r = load(e, c, u2[0]->Str_0); match r.1 { Ok(v) => { l_doc(e, r.0, init_ps(DataType::Mjs, p.ks.insert(k, v)), false, u3); } Err(x) => { run_err(e, r.0, x, u3); } } }
                        else { run_err(e, c, ParseError::WrongImportStatement, u3); }
                    }
                } else { run_err(e, c, ParseError::WrongImportStatement, u2); }
            }
        } else { run_err(e, c, ParseError::WrongImportStatement, u); }
    }
}
// ---------------------------------------------------------------------------------------------
// What the parser is built on, by contract: JavaScript values (A01, M01), the standard library, the host
// ---------------------------------------------------------------------------------------------
pub trait Dealloc: Sized {}
pub trait Manager: Sized + Copy { type Dealloc: Dealloc; }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Any<D: Dealloc> { p: PhantomData<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct JsStringRef<D: Dealloc> { p: PhantomData<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct JsBigintMutRef<D: Dealloc> { p: PhantomData<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct JsBigintRef<D: Dealloc> { p: PhantomData<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct JsArrayRef<D: Dealloc> { p: PhantomData<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct JsObjectRef<D: Dealloc> { p: PhantomData<D> }
// a new string, array or object that is not shared yet
pub struct Fresh<R> { pub r: R }
impl<R> Fresh<R> { pub fn to_ref(self) -> (r: R) ensures r == self.r { self.r } }
impl<D: Dealloc> JsBigintMutRef<D> { pub uninterp spec fn view(self) -> int;
    #[verifier::external_body]
    pub fn to_ref(self) -> (r: JsBigintRef<D>) ensures r.view() == self.view() { unimplemented!() } }
impl<D: Dealloc> JsBigintRef<D> { pub uninterp spec fn view(self) -> int; }
impl<D: Dealloc> JsStringRef<D> { pub uninterp spec fn view(self) -> Seq<u16>; }
impl<D: Dealloc> JsArrayRef<D> { pub uninterp spec fn view(self) -> Seq<AVal>; }
impl<D: Dealloc> JsObjectRef<D> { pub uninterp spec fn view(self) -> Seq<(Seq<u16>, AVal)>; }
pub struct Null();
pub trait AnyCast<D: Dealloc> { spec fn aval(self) -> AVal; }
impl<D: Dealloc> AnyCast<D> for Null { open spec fn aval(self) -> AVal { AVal::Null } }
impl<D: Dealloc> AnyCast<D> for bool { open spec fn aval(self) -> AVal { AVal::Bool(self) } }
impl<D: Dealloc> AnyCast<D> for f64 { open spec fn aval(self) -> AVal { AVal::Num(self) } }
impl<D: Dealloc> AnyCast<D> for JsStringRef<D> { open spec fn aval(self) -> AVal { AVal::Str(self.view()) } }
impl<D: Dealloc> AnyCast<D> for JsBigintRef<D> { open spec fn aval(self) -> AVal { AVal::Big(self.view()) } }
impl<D: Dealloc> AnyCast<D> for JsArrayRef<D> { open spec fn aval(self) -> AVal { AVal::Arr(self.view()) } }
impl<D: Dealloc> AnyCast<D> for JsObjectRef<D> { open spec fn aval(self) -> AVal { AVal::Obj(self.view()) } }
impl<D: Dealloc> Any<D> {
    pub uninterp spec fn view(self) -> AVal;
    #[verifier::external_body]
    pub fn move_from<T: AnyCast<D>>(t: T) -> (r: Self) ensures r.view() == t.aval() { unimplemented!() }
}
impl<D: Dealloc> Clone for Any<D> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.view() == self.view() { unimplemented!() }
}
pub open spec fn avs<D: Dealloc>(s: Seq<Any<D>>) -> Seq<AVal> { s.map_values(|x: Any<D>| x.view()) }
pub open spec fn seen<D: Dealloc>(s: Seq<(String, Any<D>)>) -> Seq<(Seq<char>, AVal)> { s.map_values(|x: (String, Any<D>)| (x.0@, x.1.view())) }
pub open spec fn kvs<D: Dealloc>(s: Seq<(JsStringRef<D>, Any<D>)>) -> Seq<(Seq<u16>, AVal)> { s.map_values(|x: (JsStringRef<D>, Any<D>)| (x.0.view(), x.1.view())) }
#[verifier::external_body]
pub fn new_string<M: Manager>(m: M, s: Vec<u16>) -> (r: Fresh<JsStringRef<M::Dealloc>>) ensures r.r.view() == s@ { unimplemented!() }
#[verifier::external_body]
pub fn new_array<M: Manager>(m: M, s: Vec<Any<M::Dealloc>>) -> (r: Fresh<JsArrayRef<M::Dealloc>>) ensures r.r.view() == avs(s@) { unimplemented!() }
#[verifier::external_body]
pub fn new_object<M: Manager>(m: M, s: Vec<(JsStringRef<M::Dealloc>, Any<M::Dealloc>)>) -> (r: Fresh<JsObjectRef<M::Dealloc>>) ensures r.r.view() == kvs(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vutf16(s: &String) -> (r: Vec<u16>) ensures r@ == u16s(s@) { s.encode_utf16().collect() }
#[verifier::external_body]
pub fn vstring_new() -> (r: String) ensures r@ == no_key() { String::default() }
#[verifier::external_body]
pub fn vseq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vreplace(a: &mut String, b: String) -> (r: String) ensures r@ == old(a)@, final(a)@ == b@ { core::mem::replace(a, b) }
pub trait VKey { spec fn kv(&self) -> Seq<char>; }
impl VKey for str { open spec fn kv(&self) -> Seq<char> { self@ } }
impl VKey for String { open spec fn kv(&self) -> Seq<char> { self@ } }
// BTreeMap<String, Any<D>> and BTreeSet<String>
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct StrMap<D: Dealloc> { p: PhantomData<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct StrMapIter<D: Dealloc> { p: PhantomData<D> }
impl<D: Dealloc> StrMapIter<D> {
    pub uninterp spec fn ents(self) -> Seq<(String, Any<D>)>;
    // `map(f).collect()`
    #[verifier::external_body]
    pub fn vmap<F: FnMut((String, Any<D>)) -> (JsStringRef<D>, Any<D>)>(self, f: F) -> (r: Vec<(JsStringRef<D>, Any<D>)>)
        requires forall|x: (String, Any<D>)| f.requires((x,))
        ensures r@.len() == self.ents().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.ents()[i],), #[trigger] r@[i])
    { unimplemented!() }
}
impl<D: Dealloc> StrMap<D> {
    pub uninterp spec fn view(self) -> Vals;
    #[verifier::external_body]
    pub fn vnew() -> (r: Self) ensures r.view() == Map::<Seq<char>, AVal>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Any<D>) -> (r: Option<Any<D>>) ensures final(self).view() == old(self).view().insert(k@, v.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: VKey + ?Sized>(&self, k: &K) -> (r: Option<&Any<D>>)
        ensures match r { Some(v) => self.view().dom().contains(k.kv()) && v.view() == self.view()[k.kv()], None => !self.view().dom().contains(k.kv()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<K: VKey + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self.view().dom().contains(k.kv()) { unimplemented!() }
    // the entries in the order of their keys
    #[verifier::external_body]
    pub fn in_order(self) -> (r: StrMapIter<D>) ensures entries(self.view(), seen(r.ents())) { unimplemented!() }
    pub fn into_iter(self) -> (r: StrMapIter<D>) ensures r.ents().len() == sorted(self.view()).len(),
        forall|i: int| 0 <= i < r.ents().len() ==> (#[trigger] r.ents()[i]).0@ == sorted(self.view())[i].0 && r.ents()[i].1.view() == sorted(self.view())[i].1
    {
        let r = self.in_order();
        proof { sorted_is(self.view(), seen(r.ents())); assert forall|i: int| 0 <= i < r.ents().len() implies (#[trigger] r.ents()[i]).0@ == sorted(self.view())[i].0 && r.ents()[i].1.view() == sorted(self.view())[i].1 by { let e = seen(r.ents())[i]; } }
        r
    }
}
impl<D: Dealloc> Default for StrMap<D> { fn default() -> (r: Self) ensures r.view() == Map::<Seq<char>, AVal>::empty() { Self::vnew() } }
#[verifier::external_body]
pub struct StrSet { p: u8 }
impl StrSet {
    pub uninterp spec fn view(self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self).view() == old(self).view().insert(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &String) -> (r: bool) ensures r == self.view().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (r: bool) ensures final(self).view() == old(self).view().remove(k@) { unimplemented!() }
}
impl Default for DataType { fn default() -> (r: Self) ensures r is Json { DataType::Json } }
pub struct IoError {}
// the files a run can read: finitely many, and they do not change while it runs
pub trait Io: Sized {
    spec fn files(&self) -> Map<Seq<char>, Seq<char>>;
    fn read_to_string(&self, p: &str) -> (r: Result<String, IoError>)
        ensures match r { Ok(s) => self.files().dom().contains(p@) && s@ == self.files()[p@], Err(_) => !self.files().dom().contains(p@) };
}
//@ file nanvm-lib/src/tokenizer/mod.rs
//@ item enum JsonToken
//@ raw
pub open spec fn tk<D: Dealloc>(t: JsonToken<D>) -> PTok {
    match t {
        JsonToken::String(s) => PTok::Str(s@), JsonToken::Number(f) => PTok::Num(f), JsonToken::Id(s) => PTok::Id(s@), JsonToken::BigInt(b) => PTok::Big(b.view()), JsonToken::NewLine => PTok::Nl,
        JsonToken::ErrorToken(_) => PTok::Bad,
        JsonToken::ObjectBegin => PTok::Op('{'), JsonToken::ObjectEnd => PTok::Op('}'), JsonToken::ArrayBegin => PTok::Op('['), JsonToken::ArrayEnd => PTok::Op(']'),
        JsonToken::Colon => PTok::Op(':'), JsonToken::Comma => PTok::Op(','), JsonToken::Equals => PTok::Op('='), JsonToken::Dot => PTok::Op('.'),
        JsonToken::Semicolon => PTok::Op(';'), JsonToken::OpeningParenthesis => PTok::Op('('), JsonToken::ClosingParenthesis => PTok::Op(')'),
    }
}
pub open spec fn tks<D: Dealloc>(s: Seq<JsonToken<D>>) -> Seq<PTok> { s.map_values(|t: JsonToken<D>| tk(t)) }
#[verifier::external_body]
pub fn tokenize<M: Manager + 'static>(m: M, s: String) -> (r: Vec<JsonToken<M::Dealloc>>) ensures tks(r@) == toks_of(s@) { unimplemented!() }
//@ file nanvm-lib/src/parser/shared.rs
//@ item struct ModuleCache
//@ item enum JsonStackElement
//@ item struct JsonStackObject
//@ item enum JsonElement
//@ item struct ParseResult
//@ file nanvm-lib/src/parser/any_state.rs
//@ item struct AnySuccess
//@ item enum AnyResult
//@ item struct AnyState
//@ file nanvm-lib/src/parser/const_state.rs
//@ item struct ConstState
//@ file nanvm-lib/src/parser/json_state.rs
//@ item enum JsonState
//@ file nanvm-lib/src/parser/root_state.rs
//@ item enum RootStatus
//@ item struct RootState
//@ file nanvm-lib/src/parser/parser.rs
//@ item struct Context
//@ raw
pub open spec fn vfr<D: Dealloc>(x: JsonStackElement<D>) -> AFr { match x { JsonStackElement::Object(o) => AFr::Obj(o.map.view(), o.key@), JsonStackElement::Array(a) => AFr::Arr(avs(a@)) } }
pub open spec fn vcur<D: Dealloc>(x: JsonElement<D>) -> ACur { match x { JsonElement::None => ACur::None, JsonElement::Stack(s) => ACur::Fr(vfr(s)), JsonElement::Any(a) => ACur::Val(a.view()) } }
pub open spec fn vstk<D: Dealloc>(s: Seq<JsonStackElement<D>>) -> Seq<AFr> { s.map_values(|x: JsonStackElement<D>| vfr(x)) }
pub broadcast proof fn b_vstk_push<D: Dealloc>(s: Seq<JsonStackElement<D>>, x: JsonStackElement<D>) ensures #[trigger] vstk(s.push(x)) == vstk(s).push(vfr(x)) { assert(vstk(s.push(x)) =~= vstk(s).push(vfr(x))); }
pub broadcast proof fn b_vstk_pop<D: Dealloc>(s: Seq<JsonStackElement<D>>) requires s.len() > 0 ensures #[trigger] vstk(s.drop_last()) == vstk(s).drop_last() { assert(vstk(s.drop_last()) =~= vstk(s).drop_last()); }
pub broadcast proof fn b_vstk_len<D: Dealloc>(s: Seq<JsonStackElement<D>>) ensures (#[trigger] vstk(s)).len() == s.len(), s.len() == 0 ==> vstk(s) == Seq::<AFr>::empty(), s.len() > 0 ==> vstk(s).last() == vfr(s.last()) { if s.len() == 0 { assert(vstk(s) =~= Seq::<AFr>::empty()); } }
pub broadcast proof fn b_avs_push<D: Dealloc>(s: Seq<Any<D>>, x: Any<D>) ensures #[trigger] avs(s.push(x)) == avs(s).push(x.view()) { assert(avs(s.push(x)) =~= avs(s).push(x.view())); }
pub broadcast proof fn b_avs_empty<D: Dealloc>(s: Seq<Any<D>>) ensures s.len() == 0 ==> #[trigger] avs(s) == Seq::<AVal>::empty() { if s.len() == 0 { assert(avs(s) =~= Seq::<AVal>::empty()); } }
pub broadcast proof fn b_vstk_sub<D: Dealloc>(s: Seq<JsonStackElement<D>>, n: int) requires 0 <= n <= s.len() ensures #[trigger] vstk(s.subrange(0, n)) == vstk(s).subrange(0, n) { assert(vstk(s.subrange(0, n)) =~= vstk(s).subrange(0, n)); }
pub broadcast group g_views { b_vstk_sub, b_vstk_push, b_vstk_pop, b_vstk_len, b_avs_push, b_avs_empty }
pub open spec fn vps<M: Manager>(s: AnyState<M>) -> APs { APs { d: s.data_type, st: s.status, cur: vcur(s.current), stack: vstk(s.stack@), ks: s.consts.view() } }
pub open spec fn vout<M: Manager>(r: AnyResult<M>) -> AOut { match r { AnyResult::Continue(s) => AOut::Cont(vps(s)), AnyResult::Success(s) => AOut::Succ(vps(s.state), s.value.view()), AnyResult::Error(e) => AOut::Err(e) } }
pub open spec fn vrt(r: RootStatus) -> ARt { match r { RootStatus::Initial => ARt::Initial, RootStatus::Export => ARt::Export, RootStatus::Module => ARt::Module, RootStatus::ModuleDot => ARt::ModuleDot, RootStatus::ModuleDotExports => ARt::ModuleDotExports,
    RootStatus::Const => ARt::Const, RootStatus::ConstId(s) => ARt::ConstId(s@), RootStatus::Import => ARt::Import, RootStatus::ImportId(s) => ARt::ImportId(s@), RootStatus::ImportIdFrom(s) => ARt::ImportIdFrom(s@) } }
pub open spec fn vroot<M: Manager>(r: RootState<M>) -> AJs { AJs::Root(vrt(r.status), vps(r.state), r.new_line) }
pub open spec fn vjs<M: Manager>(j: JsonState<M>) -> AJs { match j { JsonState::ParseRoot(r) => vroot(r), JsonState::ParseConst(s) => AJs::Const(s.key@, vps(s.state)), JsonState::ParseModule(s) => AJs::Module(vps(s)), JsonState::Result(r) => AJs::Res(r.data_type, r.any.view()), JsonState::Error(e) => AJs::Err(e) } }
pub open spec fn vopt(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn vopt2(o: Option<(String, String)>) -> Option<(Seq<char>, Seq<char>)> { match o { Some(s) => Some((s.0@, s.1@)), None => None } }
pub open spec fn vdoc<D: Dealloc>(r: Result<ParseResult<D>, ParseError>) -> Doc { match r { Ok(x) => Ok((x.data_type, x.any.view())), Err(e) => Err(e) } }
pub open spec fn env<M: Manager, I: Io>(c: Context<M, I>) -> Env { Env { files: c.io.files(), path: c.path@, prog: c.module_cache.progress.view() } }
pub open spec fn done<M: Manager, I: Io>(c: Context<M, I>) -> Vals { c.module_cache.complete.view() }
pub open spec fn tame(p: APs) -> bool { !(p.cur is Val) }
//@ file nanvm-lib/src/parser/shared.rs
//@ fn DataType::to_djs
  ensures res == djs_of(*self)
//@ fn DataType::is_djs
  ensures res == dj(*self)
//@ fn DataType::is_cjs_compatible
  ensures res == cjs_ok(*self)
//@ fn DataType::is_mjs_compatible
  ensures res == mjs_ok(*self)
//@ fn to_js_string
  ensures res.view() == u16s(s@)
//@ fn try_id_to_any
  ensures match res { Some(v) => try_any(PTok::Id(s@), consts.view()) == Some(v.view()), None => try_any(PTok::Id(s@), consts.view()) is None }
//@ start
  proof { str_ext("null"); str_ext("true"); str_ext("false"); }
//@ fn JsonToken::try_to_any
  ensures match res { Some(v) => try_any(tk(self), consts.view()) == Some(v.view()), None => try_any(tk(self), consts.view()) is None }
//@ file nanvm-lib/src/parser/any_state.rs
//@ fn <Default for AnyState<M>>::default
  ensures vps(res) == init_ps(DataType::Json, Map::empty())
//@ start
  broadcast use g_views;
//@ tailres
  proof { assert(vps(vres).stack =~= Seq::empty()); }
//@ fn AnyState::set_djs
  ensures vps(res) == (APs { d: djs_of(self.data_type), ..vps(self) })
//@ fn AnyState::set_mjs
  ensures vps(res) == (APs { d: DataType::Mjs, ..vps(self) })
//@ fn AnyState::set_cjs
  ensures vps(res) == (APs { d: DataType::Cjs, ..vps(self) })
//@ fn AnyState::push_value
  requires tame(vps(self))
  ensures vout(res) == push_value(vps(self), value.view())
//@ start
  broadcast use g_views;
//@ fn AnyState::push_key
  ensures vout(res) == s_key(vps(self), s@)
//@ fn AnyState::begin_array
  ensures vout(res) == AOut::Cont(s_begin_array(vps(self)))
//@ start
  broadcast use g_views;
//@ fn AnyState::begin_object
  ensures vout(res) == AOut::Cont(s_begin_object(vps(self)))
//@ start
  broadcast use g_views;
//@ fn AnyState::begin_import
  ensures vout(res) == AOut::Cont(s_begin_import(vps(self)))
//@ start
  broadcast use g_views;
//@ fn AnyState::end_array
  requires in_arr(vps(self))
  ensures vout(res) == s_end_array(vps(self))
//@ start
  broadcast use g_views;
//@ fn AnyState::end_object
  requires in_obj(vps(self))
  ensures vout(res) == s_end_object(vps(self))
//@ start
  broadcast use g_views;
//@ after let vec
  proof { let m = self.current->Stack_0->Object_0.map.view(); assert(AVal::Obj(kvs(vec@)) == obj(m)) by { assert(kvs(vec@) =~= sorted(m).map_values(|p: (Seq<char>, AVal)| (u16s(p.0), p.1))); } }
//@ fn AnyState::end_import
  requires vps(self).cur is Val
  ensures vout(res) == s_end_import(vps(self))
//@ start
  broadcast use g_views;
//@ fn AnyState::parse_value
  requires tame(vps(self))
  ensures vout(res) == s_value(vps(self), tk(token))
//@ fn AnyState::parse_array_begin
  requires in_arr(vps(self))
  ensures vout(res) == s_item(vps(self), tk(token))
//@ fn AnyState::parse_array_comma
  requires in_arr(vps(self))
  ensures vout(res) == s_item(vps(self), tk(token))
//@ fn AnyState::parse_array_value
  requires in_arr(vps(self))
  ensures vout(res) == s_array_value(vps(self), tk(token))
//@ fn AnyState::parse_object_begin
  requires in_obj(vps(self))
  ensures vout(res) == s_member(vps(self), tk(token))
//@ fn AnyState::parse_object_comma
  requires in_obj(vps(self))
  ensures vout(res) == s_member(vps(self), tk(token))
//@ fn AnyState::parse_object_next
  requires in_obj(vps(self))
  ensures vout(res) == s_object_next(vps(self), tk(token))
//@ fn AnyState::parse_object_key
  ensures vout(res) == s_object_key(vps(self), tk(token))
//@ fn AnyState::parse_import_begin
  ensures vout(res) == s_import_begin(vps(self), tk(token))
//@ fn AnyState::parse_import_end
  requires vps(self).cur is Val
  ensures vout(res) == s_import_end(vps(self), tk(token))
//@ fn AnyState::parse_import_value
  ensures match token {
    JsonToken::String(s) => vout(res.0) == AOut::Cont(APs { st: ParsingStatus::ImportEnd, ..vps(self) }) && vopt(res.1) == Some(s@),
    _ => vout(res.0) == AOut::Err(ParseError::WrongRequireStatement) && res.1 is None }
//@ fn AnyState::parse
  requires wf(vps(self))
  ensures !(self.status is ImportValue) ==> vout(res.0) == s_any(vps(self), tk(token)) && res.1 is None, res.1 is Some ==> res.0 is Continue,
    self.status is ImportValue ==> match token {
      JsonToken::String(s) => vout(res.0) == AOut::Cont(APs { st: ParsingStatus::ImportEnd, ..vps(self) }) && vopt(res.1) == Some(s@),
      _ => vout(res.0) == AOut::Err(ParseError::WrongRequireStatement) && res.1 is None }
//@ fn AnyState::parse_for_module
  requires wf(vps(self))
  ensures !(self.status is ImportValue) ==> vjs(res.0) == a_mod(s_any(vps(self), tk(token))) && res.1 is None
//@ file nanvm-lib/src/parser/root_state.rs
//@ fn RootState::parse
  requires wf(vps(self.state)), self.state.status is Initial
  ensures vjs(res.0) == s_root(vrt(self.status), vps(self.state), self.new_line, tk(token)).0, vopt2(res.1) == s_root(vrt(self.status), vps(self.state), self.new_line, tk(token)).1
//@ start
  proof { str_ext("const"); str_ext("export"); str_ext("module"); str_ext("import"); str_ext("default"); str_ext("exports"); str_ext("from"); }
//@ file nanvm-lib/src/parser/const_state.rs
//@ fn ConstState::parse
  requires wf(vps(self.state))
  ensures !(self.state.status is ImportValue) ==> vjs(res) == s_push(AJs::Const(self.key@, vps(self.state)), tk(token)).0 || token is NewLine
//@ file nanvm-lib/src/parser/json_state.rs
//@ fn JsonState::push
  requires wfj(vjs(self))
  ensures !asks(vjs(self)) || token is NewLine ==> vjs(res.0) == s_push(vjs(self), tk(token)).0 && vopt2(res.1) == s_push(vjs(self), tk(token)).1 && wfj(vjs(res.0))
//@ fn JsonState::end
  ensures vdoc(res) == jend(vjs(self))
//@ file nanvm-lib/src/parser/parser.rs
//@ raw
pub open spec fn ctx_ok<M: Manager, I: Io>(a: Context<M, I>, b: Context<M, I>) -> bool { env(a) == env(b) }
pub proof fn room_less(e: Env, k: Seq<char>) requires e.files.dom().contains(k), !e.prog.contains(k) ensures room(inner(e, k)) < room(e) {
    let (a, b) = (e.files.dom().difference(e.prog), e.files.dom().difference(e.prog.insert(k)));
    assert(b =~= a.remove(k)); assert(a.contains(k));
}
pub proof fn prog_back(p: Set<Seq<char>>, k: Seq<char>) requires !p.contains(k) ensures p.insert(k).remove(k) == p { assert(p.insert(k).remove(k) =~= p); }
pub proof fn resolve_is(from: Seq<char>, dir: Seq<char>, to: Seq<char>) requires place(dir) == dir_of(from) ensures text(walk(place(dir), segs(to))) == resolve(from, to) { reveal(resolve); }
//@ file nanvm-lib/src/parser/parser.rs
//@ fn Context::new
  ensures env(res) == (Env { files: io.files(), path: path@, prog: module_cache.progress.view() }), done(res) == module_cache.complete.view()
//@ sub &'a mut ModuleCache<M::Dealloc> => ModuleCache<M::Dealloc>
//@ fn any_state_parse_import_value
  requires any_state.status is ImportValue
  ensures env(*final(context)) == env(*old(context)), (done(*final(context)), vout(res)) == s_import_value(env(*old(context)), done(*old(context)), vps(any_state), tk(token))
  decreases room(env(*old(context))), 1int
//@ start
  let ghost e0 = env(*context);
//@ before if let Some(any) = context.module_cache.complete.get
  proof { assert(current_path@ == resolve(e0.path, s@)) by { assert(exists|d: Seq<char>| place(d) == dir_of(e0.path) && current_path@ == #[trigger] text(walk(place(d), segs(s@)))); let d = choose|d: Seq<char>| place(d) == dir_of(e0.path) && current_path@ == #[trigger] text(walk(place(d), segs(s@))); resolve_is(e0.path, d, s@); } }
//@ before let read_result
  proof { prog_back(e0.prog, current_path@); if e0.files.dom().contains(current_path@) { room_less(e0, current_path@); } }
//@ before let res
  let ghost v0 = tokens@;
  proof { assert(env(*context) == inner(e0, current_path@)); }
//@ fn any_state_parse
  requires wf(vps(any_state))
  ensures env(*final(context)) == env(*old(context)), (done(*final(context)), vout(res)) == anystep(env(*old(context)), done(*old(context)), vps(any_state), tk(token)), wfo(vout(res))
  decreases room(env(*old(context))), 2int
//@ fn any_state_parse_for_module
  requires wf(vps(any_state))
  ensures env(*final(context)) == env(*old(context)), ({ let r = anystep(env(*old(context)), done(*old(context)), vps(any_state), tk(token)); done(*final(context)) == r.0 && vjs(res) == a_mod(r.1) && wfj(vjs(res)) })
  decreases room(env(*old(context))), 3int
//@ fn const_state_parse
  requires wf(vps(const_state.state))
  ensures env(*final(context)) == env(*old(context)), (done(*final(context)), vjs(res)) == s_const(env(*old(context)), done(*old(context)), const_state.key@, vps(const_state.state), tk(token)), wfj(vjs(res))
  decreases room(env(*old(context))), 3int
//@ fn root_state_parse
  requires wfj(vroot(root_state))
  ensures env(*final(context)) == env(*old(context)), (done(*final(context)), vjs(res)) == s_root_full(env(*old(context)), done(*old(context)), vrt(root_state.status), vps(root_state.state), root_state.new_line, tk(token)), wfj(vjs(res))
  decreases room(env(*old(context))), 3int
//@ start
  let ghost e0 = env(*context);
//@ before if let Some(any) = context.module_cache.complete.get
  proof { assert(current_path@ == resolve(e0.path, module@)) by { assert(exists|d: Seq<char>| place(d) == dir_of(e0.path) && current_path@ == #[trigger] text(walk(place(d), segs(module@)))); let d = choose|d: Seq<char>| place(d) == dir_of(e0.path) && current_path@ == #[trigger] text(walk(place(d), segs(module@))); resolve_is(e0.path, d, module@); } }
//@ before let read_result
  proof { prog_back(e0.prog, current_path@); if e0.files.dom().contains(current_path@) { room_less(e0, current_path@); } }
//@ before let res
  let ghost v0 = tokens@;
  proof { assert(env(*context) == inner(e0, current_path@)); }
//@ fn json_state_push
  requires wfj(vjs(json_state))
  ensures env(*final(context)) == env(*old(context)), (done(*final(context)), vjs(res)) == jstep(env(*old(context)), done(*old(context)), vjs(json_state), tk(token)), wfj(vjs(res))
  decreases room(env(*old(context))), 4int
//@ fn parse_with_tokens
  requires iter.inv(), !iter.inf()
  ensures env(*final(context)) == env(*old(context)), (done(*final(context)), vdoc(res)) == gdoc(env(*old(context)), done(*old(context)), DataType::Json, Map::empty(), true, tks(iseq(iter)))
  decreases room(env(*old(context))), 5int
//@ start
  let ghost e0 = env(*context); let ghost c0 = done(*context);
//@ loop 0 before
  let ghost tt = tks(iseq(iter)); let ghost j0 = vjs(state);
  proof { assert(j0 == AJs::Root(ARt::Initial, init_ps(DataType::Json, Map::empty()), true)); l_doc(e0, c0, init_ps(DataType::Json, Map::empty()), true, tt); assert(tt.skip(0) =~= tt); }
//@ loop 0
  !vst0.inf(), vk0 <= vst0.n(), vst0.n() == tt.len(), forall|i: int| 0 <= i < tt.len() ==> tk(#[trigger] vst0.at(i)) == tt[i], env(*context) == e0, e0 == env(*old(context)), wfj(vjs(state)),
  jrun(e0, done(*context), vjs(state), tt.skip(vk0)) == jrun(e0, c0, j0, tt),
//@ loop 0 start
  proof { let u = tt.skip(vk0 - 1); assert(tk(token) == u[0]); assert(u.skip(1) =~= tt.skip(vk0)); l_one(e0, done(*context), vjs(state), u); }
//@ loop 0 after
  proof { assert(tt.skip(vk0).len() == 0); }
//@ fn parse
  ensures ({ let (c0, c1) = (*old(context), *final(context)); let e = Env { prog: c0.module_cache.progress.view().insert(text(place(c0.path@))), ..env(c0) };
    &&& c1.path@ == c0.path@
    &&& c1.module_cache.progress.view() == e.prog.remove(text(place(c0.path@)))
    &&& (done(c1), vdoc(res)) == if e.files.dom().contains(c0.path@) { gdoc(e, done(c0), DataType::Json, Map::empty(), true, toks_of(e.files[c0.path@])) } else { (done(c0), Doc::Err(ParseError::CannotReadFile)) } })
