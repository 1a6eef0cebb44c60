//@ include numbers_core.vrs
//@ raw
use vstd::std_specs::cmp::*;
//@ include range_core.vrs
//@ include cast.vrs
//@ module tok
//@ raw
use super::pre::*;
use vstd::std_specs::cmp::*;
use std::collections::VecDeque;
broadcast use {super::pre::axiom_vec_len, super::pre::axiom_slice_len};
//@ include lex_spec.vrs
//@ raw
// ---------------------------------------------------------------------------------------------
// views
// ---------------------------------------------------------------------------------------------
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(M)]
pub struct Tr<T, M> { pub k: usize, pub p: core::marker::PhantomData<(T, M)> }
impl<T, M> Clone for Tr<T, M> { fn clone(&self) -> (r: Self) ensures r == *self { Tr { k: self.k, p: self.p } } }
impl<T, M> Copy for Tr<T, M> {}
impl<T, M> PartialEqSpecImpl for Tr<T, M> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.k == o.k }
}
impl<T, M> PartialEq for Tr<T, M> { fn eq(&self, o: &Self) -> (r: bool) { self.k == o.k } }
impl<T, M> Eq for Tr<T, M> {}
// derived in the source
impl<T: Clone> Clone for State<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures copies::<T>() ==> r == *self { State { value: self.value.clone() } }
}
pub type Transition<T, M> = Tr<T, M>;
pub fn vtr<T, M>(k: usize) -> (r: Tr<T, M>) ensures r.k == k { Tr { k, p: core::marker::PhantomData } }
#[verifier::external_body]
pub fn vchar_string(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
pub fn vri(a: char, b: char) -> (r: VRangeIncl<char>) ensures r.s == a, r.e == b { VRangeIncl { s: a, e: b } }
pub axiom fn str_ext(lit: &str) ensures forall|a: &str| #[trigger] a@ == lit@ ==> a == lit;
#[verifier::external_body]
pub fn vtake<D: Dealloc>(s: &mut TokenizerState<D>) -> (r: TokenizerState<D>) ensures r == *old(s), *final(s) is Initial { core::mem::replace(s, TokenizerState::Initial) }
pub trait VChain2: VIter { fn vchain<B: VInto>(self, b: B) -> (r: VChain<Self, B::I>) where B::I: VIter<Item = Self::Item> requires self.inv(), !self.inf(), b.fin() ensures r.inv(), !r.inf(), iseq(r) == iseq(self) + b.vseq(); }
impl<I: VIter> VChain2 for I {
    fn vchain<B: VInto>(self, b: B) -> (r: VChain<Self, B::I>) where B::I: VIter<Item = Self::Item> {
        proof { self.n_nonneg(); }
        let ghost g = b;
        let r = VChain { a: self, b: b.vinto() };
        proof { r.b.n_nonneg(); assert(iseq(r.b) == g.vseq()); assert(iseq(r) =~= iseq(self) + g.vseq()) by { assert forall|i: int| 0 <= i < r.n() implies #[trigger] iseq(r)[i] == (iseq(self) + g.vseq())[i] by { if i >= self.n() { assert(iseq(r.b)[i - self.n()] == r.b.at(i - self.n())); } } } }
        r
    }
}
impl<D: Dealloc> Default for TokenizerState<D> { fn default() -> (r: Self) ensures r is Initial { TokenizerState::Initial } }
pub trait VDeq<T> { spec fn dq(&self) -> Seq<T>; fn vextend(&mut self, v: Vec<T>) ensures final(self).dq() == old(self).dq() + v@; }
impl<T> VDeq<T> for VecDeque<T> {
    open spec fn dq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vextend(&mut self, v: Vec<T>) { self.extend(v) }
}
// the chars of a text, in order
#[verifier::external_body]
pub fn vchars(s: String) -> (r: VOwned<char>) ensures r.inv(), iseq(r) == s@ { let v: Vec<char> = s.chars().collect(); VOwned { v, orig: Ghost(arbitrary()), k: Ghost(0) } }
// the tokens an iterator still has to give: those in its queue, then those of the text left
pub open spec fn rest<T: VIter<Item = char>, M: Manager + 'static>(i: TokenizerStateIterator<T, M>) -> Seq<ATok> { if i.end { Seq::empty() } else { lex(aview(i.state), iseq(i.chars)) } }
#[verifier::opaque]
pub open spec fn stream<T: VIter<Item = char>, M: Manager + 'static>(i: TokenizerStateIterator<T, M>, l: Seq<ATok>) -> bool {
    i.cache@.len() <= l.len() && tvm(i.cache@, l.take(i.cache@.len() as int)) && l.skip(i.cache@.len() as int) =~= rest(i)
}
pub open spec fn itok_ok<T: VIter<Item = char>, M: Manager + 'static>(i: TokenizerStateIterator<T, M>) -> bool {
    i.chars.inv() && !i.chars.inf() && (i.end || (good(i.state) && fe_of(i.state) > -FE() + i.chars.n())) && maps_ok(i.maps)
}
pub open spec fn left<T: VIter<Item = char>, M: Manager + 'static>(i: TokenizerStateIterator<T, M>) -> int { i.chars.n() + (if i.end { 0int } else { 1 }) }
// one token taken off the queue
pub proof fn st_pop<T: VIter<Item = char>, M: Manager + 'static>(a: TokenizerStateIterator<T, M>, b: TokenizerStateIterator<T, M>, l: Seq<ATok>)
    requires stream(a, l), a.cache@.len() > 0, b.cache@ == a.cache@.skip(1), rest(b) == rest(a)
    ensures l.len() > 0, tmatch(a.cache@[0], l[0]), stream(b, l.skip(1))
{
    reveal(stream); let n = a.cache@.len() as int; let l1 = l.take(n); let m = l.skip(1);
    assert(l1[0] == l[0]);
    assert forall|i: int| 0 <= i < n - 1 implies tmatch(#[trigger] b.cache@[i], m.take(n - 1)[i]) by { assert(b.cache@[i] == a.cache@[i + 1]); assert(l1[i + 1] == m.take(n - 1)[i]); }
    assert(m.skip(n - 1) =~= l.skip(n));
}
// the queue gets the tokens x of the part of the text that was read
pub proof fn st_push<T: VIter<Item = char>, M: Manager + 'static>(a: TokenizerStateIterator<T, M>, b: TokenizerStateIterator<T, M>, x: Seq<ATok>, l: Seq<ATok>)
    requires stream(a, l), a.cache@.len() == 0, tvm(b.cache@, x), rest(a) =~= x + rest(b)
    ensures stream(b, l)
{ reveal(stream); assert(l =~= l.skip(0)); assert(l.take(x.len() as int) =~= x); }
pub proof fn lex_step(s: ASt, t: Seq<char>, u: Seq<char>) requires t.len() > 0, u =~= t.skip(1) ensures lex(s, t) == step(s, t[0]).0 + lex(step(s, t[0]).1, u) {}
impl<T: VIter<Item = char>, M: Manager + 'static> TokenizerStateIterator<T, M> {
    // `Iterator::collect` into a Vec: the results of `next` until it gives None
    pub fn vcollect(self) -> (r: Vec<JsonToken<M::Dealloc>>)
        requires itok_ok(self)
        ensures forall|l: Seq<ATok>| #[trigger] stream(self, l) ==> tvm(r@, l)
    {
        let mut it = self;
        let mut r: Vec<JsonToken<M::Dealloc>> = Vec::new();
        proof { assert forall|l: Seq<ATok>| #[trigger] stream(self, l) implies tvm(r@, l.take(0)) && stream(it, l.skip(0)) by { assert(l.skip(0) =~= l); } }
        loop
            invariant itok_ok(it), forall|l: Seq<ATok>| #[trigger] stream(self, l) ==> r@.len() <= l.len() && tvm(r@, l.take(r@.len() as int)) && stream(it, l.skip(r@.len() as int))
            decreases left(it), it.cache@.len()
        {
            let ghost (r0, i0) = (r@, it);
            proof { it.chars.n_nonneg(); }
            match it.next() {
                Some(x) => { r.push(x); proof {
                    it.chars.n_nonneg();
                    assert forall|l: Seq<ATok>| #[trigger] stream(self, l) implies r@.len() <= l.len() && tvm(r@, l.take(r@.len() as int)) && stream(it, l.skip(r@.len() as int)) by {
                        let n = r0.len() as int; let m = l.skip(n); assert(stream(i0, m)); assert(m.len() > 0 && m[0] == l[n]); assert(m.skip(1) =~= l.skip(n + 1));
                        assert forall|i: int| 0 <= i < n + 1 implies tmatch(#[trigger] r@[i], l.take(n + 1)[i]) by { if i < n { assert(r@[i] == r0[i]); assert(l.take(n)[i] == l.take(n + 1)[i]); } }
                    }
                } }
                None => { proof { assert forall|l: Seq<ATok>| #[trigger] stream(self, l) implies tvm(r@, l) by { let n = r0.len() as int; let m = l.skip(n); assert(stream(i0, m)); assert(l.take(n) =~= l); } } return r; }
            }
        }
    }
}
//@ file nanvm-lib/src/tokenizer/mod.rs
//@ gsub #[derive(Default)] => 
//@ gsub #[default] Initial => Initial
//@ gsub pub enum TokenizerState => #[verifier::reject_recursive_types(D)] pub enum TokenizerState
//@ gsub struct TransitionMap< => #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(T)] pub struct TransitionMap<
//@ gsub pub struct TransitionMaps => #[verifier::reject_recursive_types(M)] pub struct TransitionMaps
//@ gsub take(self) => vtake(self)
//@ gsub take(&mut self.state) => vtake(&mut self.state)
//@ gsub c.to_string() => vchar_string(c)
//@ gsub RangeInclusive::new( => vri(
//@ gsub 'a'..='z' => vri('a', 'z')
//@ gsub 'A'..='Z' => vri('A', 'Z')
//@ gsub '0'..='9' => vri('0', '9')
//@ gsub '1'..='9' => vri('1', '9')
//@ gsub 'a'..='f' => vri('a', 'f')
//@ gsub 'A'..='F' => vri('A', 'F')
//@ gsub JsBigintMutRef::from_digit => MutRef::<JsBigint, M::Dealloc>::from_digit
//@ gsub T: Iterator<Item = char> => T: VIter<Item = char>
//@ gsub pub struct TokenizerStateIterator => #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(T)] pub struct TokenizerStateIterator
//@ gsub input.chars() => vchars(input)
//@ gsub .collect() => .vcollect()
//@ item struct ParseUnicodeCharState
//@ item struct TokenizerStateIterator
//@ item enum TokenizerState
//@ item struct TransitionMap
//@ item struct TransitionMaps
//@ item const WHITE_SPACE_CHARS
//@ item const NEW_LINE_CHARS
//@ item const OPERATOR_CHARS
//@ raw
// a number token stands for a decimal literal when it is the double that literal denotes
pub open spec fn tmatch<D: Dealloc>(t: JsonToken<D>, a: ATok) -> bool { match (t, a) { (JsonToken::Number(f), ATok::Num(s, dg, e)) => is_num(t, s, dg, e), (JsonToken::Number(_), _) => false, _ => tview(t) == a } }
pub open spec fn tvm<D: Dealloc>(ts: Seq<JsonToken<D>>, l: Seq<ATok>) -> bool { ts.len() == l.len() && forall|i: int| 0 <= i < ts.len() ==> tmatch(#[trigger] ts[i], l[i]) }
pub open spec fn tview<D: Dealloc>(t: JsonToken<D>) -> ATok {
    match t {
        JsonToken::String(s) => ATok::Str(s@), JsonToken::Number(f) => arbitrary(),
        JsonToken::ObjectBegin => ATok::Op('{'), JsonToken::ObjectEnd => ATok::Op('}'), JsonToken::ArrayBegin => ATok::Op('['), JsonToken::ArrayEnd => ATok::Op(']'),
        JsonToken::Colon => ATok::Op(':'), JsonToken::Comma => ATok::Op(','), JsonToken::Equals => ATok::Op('='), JsonToken::Dot => ATok::Op('.'),
        JsonToken::ErrorToken(e) => ATok::Err(e), JsonToken::BigInt(b) => ATok::Big(bi(b.res())), JsonToken::Id(s) => ATok::Id(s@), JsonToken::NewLine => ATok::Nl,
        JsonToken::Semicolon => ATok::Op(';'), JsonToken::OpeningParenthesis => ATok::Op('('), JsonToken::ClosingParenthesis => ATok::Op(')'),
    }
}
pub open spec fn p16(n: int) -> int { if n <= 0 { 65536 } else if n == 1 { 4096 } else if n == 2 { 256 } else if n == 3 { 16 } else { 1 } }
pub open spec fn aview<D: Dealloc>(t: TokenizerState<D>) -> ASt {
    match t {
        TokenizerState::Initial => ASt::Init, TokenizerState::ParseId(s) => ASt::Id(s@), TokenizerState::ParseString(s) => ASt::Str(s@), TokenizerState::ParseEscapeChar(s) => ASt::Esc(s@),
        TokenizerState::ParseUnicodeChar(u) => ASt::Uni(u.s@, u.unicode as int / p16(u.index as int), u.index as int),
        TokenizerState::ParseMinus => ASt::Minus, TokenizerState::ParseZero(s) => ASt::Zero(s),
        TokenizerState::ParseInt(s) => ASt::Int(s.s, bi(s.b.res())), TokenizerState::ParseFracBegin(s) => ASt::FracBegin(s.s, bi(s.b.res())),
        TokenizerState::ParseFrac(s) => ASt::Frac(s.s, bi(s.b.res()), s.fe as int),
        TokenizerState::ParseExpBegin(s) => ASt::ExpBegin(s.s, bi(s.b.res()), s.fe as int, s.es, s.e as int),
        TokenizerState::ParseExpSign(s) => ASt::ExpSign(s.s, bi(s.b.res()), s.fe as int, s.es, s.e as int),
        TokenizerState::ParseExp(s) => ASt::Exp(s.s, bi(s.b.res()), s.fe as int, s.es, s.e as int),
        TokenizerState::ParseBigInt(b) => ASt::Big(bi(b.res())), TokenizerState::ParseNewLine => ASt::Nl,
        TokenizerState::ParseCommentStart => ASt::CStart, TokenizerState::ParseSinglelineComment => ASt::CLine, TokenizerState::ParseMultilineComment => ASt::CMulti,
        TokenizerState::ParseMultilineCommentAsterix => ASt::CStar, TokenizerState::ParseOperator(s) => ASt::Op(s@),
    }
}
pub open spec fn okb(b: JsBigint) -> bool { wf(b) && bi(b) >= 0 }
pub open spec fn oke<D: Dealloc>(s: ExpState<D>) -> bool { okb(s.b.res()) && -FE() <= s.fe <= 0 && s.e >= 0 }
pub open spec fn FE() -> int { 0x1000_0000_0000_0000 }
pub open spec fn oku(u: ParseUnicodeCharState) -> bool { u.index <= 3 && u.unicode < 65536 && u.unicode as int % p16(u.index as int) == 0 }
pub open spec fn good<D: Dealloc>(t: TokenizerState<D>) -> bool {
    match t {
        TokenizerState::ParseUnicodeChar(u) => oku(u),
        TokenizerState::ParseInt(s) => okb(s.b.res()), TokenizerState::ParseFracBegin(s) => okb(s.b.res()),
        TokenizerState::ParseFrac(s) => okb(s.b.res()) && -FE() <= s.fe <= 0,
        TokenizerState::ParseExpBegin(s) => oke(s), TokenizerState::ParseExpSign(s) => oke(s), TokenizerState::ParseExp(s) => oke(s),
        TokenizerState::ParseBigInt(b) => wf(b.res()),
        TokenizerState::ParseOperator(s) => s@.len() == 1 && is_op(s@[0]),
        _ => true,
    }
}
// fraction digits seen so far, negated
pub open spec fn fe_of<D: Dealloc>(t: TokenizerState<D>) -> int {
    match t { TokenizerState::ParseFrac(s) => s.fe as int, TokenizerState::ParseExpBegin(s) => s.fe as int, TokenizerState::ParseExpSign(s) => s.fe as int, TokenizerState::ParseExp(s) => s.fe as int, _ => 0 }
}
pub open spec fn pre<M: Manager>(st: TokenizerState<M::Dealloc>, maps: TransitionMaps<M>) -> bool { good(st) && fe_of(st) > -FE() && maps_ok(maps) }
// one char, from state st
pub open spec fn post<D: Dealloc>(st: TokenizerState<D>, c: char, r: (Vec<JsonToken<D>>, TokenizerState<D>)) -> bool {
    tvm(r.0@, step(aview(st), c).0) && aview(r.1) == step(aview(st), c).1 && good(r.1) && fe_of(r.1) >= fe_of(st) - 1
}
pub open spec fn tm_ok<T, M: Manager>(tm: TransitionMap<T, M>) -> bool { sorted(tm.rm.list@) && tm.rm.list@.len() <= i32::MAX }
pub open spec fn tk<T, M: Manager>(tm: TransitionMap<T, M>, c: char) -> int { match getv(tm.rm.list@, c).value { Some(t) => t.k as int, None => tm.def.k as int } }
#[verifier::opaque]
pub open spec fn map_is<T, M: Manager>(tm: TransitionMap<T, M>, tab: spec_fn(char) -> int) -> bool { tm_ok(tm) && forall|c: char| #[trigger] tk(tm, c) == tab(c) }

pub open spec fn tab_initial(c: char) -> int { if is_op(c) { 1 } else if '1' <= c <= '9' { 2 } else if c == '"' { 3 } else if c == '0' { 4 } else if c == '-' { 5 } else if is_id0(c) { 6 } else if c == '\n' { 7 } else if c == ' ' || c == '\t' || c == '\r' { 8 } else if c == '/' { 9 } else { 0 } }
pub open spec fn tf_initial() -> spec_fn(char) -> int { |c: char| tab_initial(c) }
pub open spec fn tab_id(c: char) -> int { if is_id1(c) { 1 } else { 0 } }
pub open spec fn tf_id() -> spec_fn(char) -> int { |c: char| tab_id(c) }
pub open spec fn tab_string(c: char) -> int { if c == '"' { 1 } else if c == '\\' { 2 } else { 0 } }
pub open spec fn tf_string() -> spec_fn(char) -> int { |c: char| tab_string(c) }
pub open spec fn tab_escape_char(c: char) -> int { if c == '"' || c == '\\' || c == '/' { 1 } else if c == 'b' { 2 } else if c == 'f' { 3 } else if c == 'n' { 4 } else if c == 'r' { 5 } else if c == 't' { 6 } else if c == 'u' { 7 } else { 0 } }
pub open spec fn tf_escape_char() -> spec_fn(char) -> int { |c: char| tab_escape_char(c) }
pub open spec fn tab_unicode_char(c: char) -> int { if dig(c) { 1 } else if 'a' <= c <= 'f' { 2 } else if 'A' <= c <= 'F' { 3 } else { 0 } }
pub open spec fn tf_unicode_char() -> spec_fn(char) -> int { |c: char| tab_unicode_char(c) }
pub open spec fn tab_zero(c: char) -> int { if c == '.' { 1 } else if c == 'e' || c == 'E' { 2 } else if c == 'n' { 3 } else if is_term(c) { 4 } else { 0 } }
pub open spec fn tf_zero() -> spec_fn(char) -> int { |c: char| tab_zero(c) }
pub open spec fn tab_int(c: char) -> int { if dig(c) { 1 } else if c == '.' { 2 } else if c == 'e' || c == 'E' { 3 } else if c == 'n' { 4 } else if is_term(c) { 5 } else { 0 } }
pub open spec fn tf_int() -> spec_fn(char) -> int { |c: char| tab_int(c) }
pub open spec fn tab_minus(c: char) -> int { if c == '0' { 1 } else if '1' <= c <= '9' { 2 } else { 0 } }
pub open spec fn tf_minus() -> spec_fn(char) -> int { |c: char| tab_minus(c) }
pub open spec fn tab_frac_begin(c: char) -> int { if dig(c) { 1 } else { 0 } }
pub open spec fn tf_frac_begin() -> spec_fn(char) -> int { |c: char| tab_frac_begin(c) }
pub open spec fn tab_frac(c: char) -> int { if dig(c) { 1 } else if c == 'e' || c == 'E' { 2 } else if is_term(c) { 3 } else { 0 } }
pub open spec fn tf_frac() -> spec_fn(char) -> int { |c: char| tab_frac(c) }
pub open spec fn tab_exp_begin(c: char) -> int { if dig(c) { 1 } else if c == '+' { 2 } else if c == '-' { 3 } else { 0 } }
pub open spec fn tf_exp_begin() -> spec_fn(char) -> int { |c: char| tab_exp_begin(c) }
pub open spec fn tab_exp_sign(c: char) -> int { if dig(c) { 1 } else { 0 } }
pub open spec fn tf_exp_sign() -> spec_fn(char) -> int { |c: char| tab_exp_sign(c) }
pub open spec fn tab_exp(c: char) -> int { if dig(c) { 1 } else if is_term(c) { 2 } else { 0 } }
pub open spec fn tf_exp() -> spec_fn(char) -> int { |c: char| tab_exp(c) }
pub open spec fn tab_big_int(c: char) -> int { if is_term(c) { 1 } else { 0 } }
pub open spec fn tf_big_int() -> spec_fn(char) -> int { |c: char| tab_big_int(c) }
pub open spec fn tab_new_line(c: char) -> int { if is_ws(c) { 1 } else { 0 } }
pub open spec fn tf_new_line() -> spec_fn(char) -> int { |c: char| tab_new_line(c) }
pub open spec fn tab_comment_start(c: char) -> int { if c == '/' { 1 } else if c == '*' { 2 } else { 0 } }
pub open spec fn tf_comment_start() -> spec_fn(char) -> int { |c: char| tab_comment_start(c) }
pub open spec fn tab_singleline_comment(c: char) -> int { if c == '\n' || c == '\r' { 1 } else { 0 } }
pub open spec fn tf_singleline_comment() -> spec_fn(char) -> int { |c: char| tab_singleline_comment(c) }
pub open spec fn tab_multiline_comment(c: char) -> int { if c == '*' { 1 } else { 0 } }
pub open spec fn tf_multiline_comment() -> spec_fn(char) -> int { |c: char| tab_multiline_comment(c) }
pub open spec fn tab_multiline_comment_asterix(c: char) -> int { if c == '/' { 1 } else if c == '*' { 2 } else { 0 } }
pub open spec fn tf_multiline_comment_asterix() -> spec_fn(char) -> int { |c: char| tab_multiline_comment_asterix(c) }
pub open spec fn tab_operator(c: char) -> int { if is_op(c) { 1 } else { 0 } }
pub open spec fn tf_operator() -> spec_fn(char) -> int { |c: char| tab_operator(c) }
pub open spec fn maps_ok<M: Manager>(m: TransitionMaps<M>) -> bool {
    &&& map_is(m.initial, tf_initial())
    &&& map_is(m.id, tf_id())
    &&& map_is(m.string, tf_string())
    &&& map_is(m.escape_char, tf_escape_char())
    &&& map_is(m.unicode_char, tf_unicode_char())
    &&& map_is(m.zero, tf_zero())
    &&& map_is(m.int, tf_int())
    &&& map_is(m.minus, tf_minus())
    &&& map_is(m.frac_begin, tf_frac_begin())
    &&& map_is(m.frac, tf_frac())
    &&& map_is(m.exp_begin, tf_exp_begin())
    &&& map_is(m.exp_sign, tf_exp_sign())
    &&& map_is(m.exp, tf_exp())
    &&& map_is(m.big_int, tf_big_int())
    &&& map_is(m.new_line, tf_new_line())
    &&& map_is(m.comment_start, tf_comment_start())
    &&& map_is(m.singleline_comment, tf_singleline_comment())
    &&& map_is(m.multiline_comment, tf_multiline_comment())
    &&& map_is(m.multiline_comment_asterix, tf_multiline_comment_asterix())
    &&& map_is(m.operator, tf_operator())
}
pub type RangeInclusive<T> = VRangeIncl<T>;
pub open spec fn in_range(r: VRangeIncl<char>, c: char) -> bool { r.s as int <= c as int <= r.e as int }
pub open spec fn in_upto(l: Seq<VRangeIncl<char>>, n: int, c: char) -> bool decreases n { n > 0 && (in_range(l[n - 1], c) || in_upto(l, n - 1, c)) }
pub open spec fn in_ranges(l: Seq<VRangeIncl<char>>, c: char) -> bool { in_upto(l, l.len() as int, c) }
pub open spec fn ranges_ok(l: Seq<VRangeIncl<char>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).s as int <= l[i].e as int }
pub open spec fn ranges_are(l: Seq<VRangeIncl<char>>, s: Seq<char>) -> bool { l.len() == s.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).s == s[i] && l[i].e == s[i] }
pub type TList<T, M> = Seq<Entry<char, State<Tr<T, M>>>>;
// the transition a list gives for a char, -1 for none
pub open spec fn ov<T, M>(o: Option<State<Tr<T, M>>>) -> int { match o { Some(State { value: Some(t) }) => t.k as int, _ => -1 } }
pub open spec fn gv<T, M>(l: TList<T, M>, c: char) -> int { ov(look(l, c)) }
pub proof fn gv_getv<T, M>(l: TList<T, M>) ensures forall|c: char| #[trigger] gv(l, c) == (match getv(l, c).value { Some(t) => t.k as int, None => -1 }) {}
pub proof fn gets_from<T, M>(l: TList<T, M>, s: char, e: char, v: Tr<T, M>)
    requires forall|c: char| #[trigger] getv(l, c) == (if s as u32 <= c as u32 <= e as u32 { State { value: Some(v) } } else { State { value: None } })
    ensures forall|c: char| #[trigger] gv(l, c) == (if s as int <= c as int <= e as int { v.k as int } else { -1 })
{ assert forall|c: char| #[trigger] gv(l, c) == (if s as int <= c as int <= e as int { v.k as int } else { -1 }) by { let x = getv(l, c); } }
pub proof fn copies_state<T, M>() ensures copies::<Tr<T, M>>(), copies::<State<Tr<T, M>>>(), total::<char>() { total_char(); }
pub proof fn key_ge<T>(l: Seq<Entry<char, T>>, i: int) requires total::<char>(), sorted(l), 0 <= i < l.len() ensures l[i].key as int >= i decreases i {
    reveal(sorted); axiom_char_order();
    if i > 0 { key_ge(l, i - 1); assert(lt(l[i - 1].key, l[i].key)); }
}
pub proof fn len_small<T>(l: Seq<Entry<char, T>>) requires sorted(l) ensures l.len() <= 0x110000 { total_char(); if l.len() > 0 { key_ge(l, l.len() - 1); } }
// two lists that agree where both have a transition
pub open spec fn agree<T, M>(a: TList<T, M>, b: TList<T, M>) -> bool { forall|c: char| #[trigger] gv(a, c) == -1 || gv(b, c) == -1 || gv(a, c) == gv(b, c) }
// two lists that agree where both have a transition
pub proof fn agree_compat<T, M>(a: TList<T, M>, b: TList<T, M>)
    requires agree(a, b)
    ensures compat(a, b)
{ reveal(compat); assert forall|k: char| match (#[trigger] look(a, k), look(b, k)) { (Some(x), Some(y)) => x.upre(y), _ => true } by { let x = gv(a, k); let y = gv(b, k); } }
pub proof fn merged<T, M>(a: TList<T, M>, b: TList<T, M>, r: TList<T, M>)
    requires is_merge(a, b, r)
    ensures sorted(r), forall|c: char| #[trigger] gv(r, c) == (if gv(b, c) >= 0 { gv(b, c) } else { gv(a, c) })
{ reveal(is_merge); assert forall|c: char| #[trigger] gv(r, c) == (if gv(b, c) >= 0 { gv(b, c) } else { gv(a, c) }) by { assert(look(r, c) == comb(look(a, c), look(b, c))); } }
// the i-th map of a list gives transition i + 1, where the table says so
pub open spec fn tab_one<T, M>(l: TList<T, M>, tab: spec_fn(char) -> int, i: int) -> bool { sorted(l) && forall|c: char| #[trigger] gv(l, c) == (if tab(c) == i { i } else { -1 }) }
pub open spec fn tab_ok<T, M>(l: Seq<RangeMap<char, State<Tr<T, M>>>>, tab: spec_fn(char) -> int, n: int) -> bool decreases n {
    n <= 0 || (tab_one(l[n - 1].list@, tab, n) && tab_ok(l, tab, n - 1))
}
pub proof fn tab_list<T, M>(l: Seq<RangeMap<char, State<Tr<T, M>>>>, tab: spec_fn(char) -> int)
    requires tab_ok(l, tab, l.len() as int)
    ensures all_sorted(l), all_compat(l), forall|c: char| #[trigger] ov(mlook(l, l.len() as int, c)) == (if 1 <= tab(c) <= l.len() { tab(c) } else { -1 })
{
    assert forall|i: int| 0 <= i < l.len() implies sorted(#[trigger] l[i].list@) by { tab_at(l, tab, l.len() as int, i + 1); }
    assert forall|n: int, k: char| 0 < n <= l.len() implies match (look(l[n - 1].list@, k), #[trigger] mlook(l, n - 1, k)) { (Some(x), Some(y)) => x.upre(y), _ => true } by {
        tab_at(l, tab, l.len() as int, n); tab_upto(l, tab, n - 1, k); let x = gv(l[n - 1].list@, k);
    }
    assert forall|c: char| #[trigger] ov(mlook(l, l.len() as int, c)) == (if 1 <= tab(c) <= l.len() { tab(c) } else { -1 }) by { tab_upto(l, tab, l.len() as int, c); }
}
pub proof fn tab_at<T, M>(l: Seq<RangeMap<char, State<Tr<T, M>>>>, tab: spec_fn(char) -> int, n: int, i: int) requires tab_ok(l, tab, n), 1 <= i <= n ensures tab_one(l[i - 1].list@, tab, i), tab_ok(l, tab, i - 1) decreases n { if i < n { tab_at(l, tab, n - 1, i); } }
pub proof fn tab_upto<T, M>(l: Seq<RangeMap<char, State<Tr<T, M>>>>, tab: spec_fn(char) -> int, n: int, c: char)
    requires tab_ok(l, tab, l.len() as int), 0 <= n <= l.len()
    ensures ov(mlook(l, n, c)) == (if 1 <= tab(c) <= n { tab(c) } else { -1 })
    decreases n
{ if n > 0 { tab_upto(l, tab, n - 1, c); tab_at(l, tab, l.len() as int, n); let x = gv(l[n - 1].list@, c); } }
// all of the above, about every list of this transition type
pub proof fn tm_facts<T, M>(tab: spec_fn(char) -> int)
    ensures copies::<Tr<T, M>>(), copies::<State<Tr<T, M>>>(), total::<char>(), char_order(),
        forall|l: TList<T, M>, c: char| #[trigger] gv(l, c) == (match getv(l, c).value { Some(t) => t.k as int, None => -1 }),
        forall|a: TList<T, M>, b: TList<T, M>| agree(a, b) ==> #[trigger] compat(a, b),
        forall|a: TList<T, M>, b: TList<T, M>, r: TList<T, M>| #[trigger] is_merge(a, b, r) ==> sorted(r) && forall|c: char| #[trigger] gv(r, c) == (if gv(b, c) >= 0 { gv(b, c) } else { gv(a, c) }),
        forall|l: Seq<RangeMap<char, State<Tr<T, M>>>>| tab_ok(l, tab, l.len() as int) ==> #[trigger] all_sorted(l),
        forall|l: Seq<RangeMap<char, State<Tr<T, M>>>>| tab_ok(l, tab, l.len() as int) ==> #[trigger] all_compat(l),
        forall|l: Seq<RangeMap<char, State<Tr<T, M>>>>, c: char| tab_ok(l, tab, l.len() as int) ==> ov(#[trigger] mlook(l, l.len() as int, c)) == (if 1 <= tab(c) <= l.len() { tab(c) } else { -1 }),
{
    copies_state::<T, M>(); total_char();
    assert forall|a: TList<T, M>, b: TList<T, M>| agree(a, b) implies #[trigger] compat(a, b) by { agree_compat(a, b); }
    assert forall|a: TList<T, M>, b: TList<T, M>, r: TList<T, M>| #[trigger] is_merge(a, b, r) implies sorted(r) && forall|c: char| #[trigger] gv(r, c) == (if gv(b, c) >= 0 { gv(b, c) } else { gv(a, c) }) by { merged(a, b, r); }
    assert forall|l: Seq<RangeMap<char, State<Tr<T, M>>>>| tab_ok(l, tab, l.len() as int) implies #[trigger] all_sorted(l) by { tab_list(l, tab); }
    assert forall|l: Seq<RangeMap<char, State<Tr<T, M>>>>| tab_ok(l, tab, l.len() as int) implies #[trigger] all_compat(l) by { tab_list(l, tab); }
    assert forall|l: Seq<RangeMap<char, State<Tr<T, M>>>>, c: char| tab_ok(l, tab, l.len() as int) implies ov(#[trigger] mlook(l, l.len() as int, c)) == (if 1 <= tab(c) <= l.len() { tab(c) } else { -1 }) by { tab_list(l, tab); let x = ov(mlook(l, l.len() as int, c)); }
}
pub proof fn map_end<T, M: Manager>(tm: TransitionMap<T, M>, tab: spec_fn(char) -> int)
    requires sorted(tm.rm.list@), tm.def.k == 0, forall|c: char| #[trigger] tab(c) >= 0, forall|c: char| #[trigger] gv(tm.rm.list@, c) == (if tab(c) == 0 { -1 } else { tab(c) })
    ensures map_is(tm, tab)
{ reveal(map_is); len_small(tm.rm.list@); assert forall|c: char| #[trigger] tk(tm, c) == tab(c) by { let x = gv(tm.rm.list@, c); } }
pub open spec fn op_tok(s: Seq<char>) -> bool { s.len() == 1 && is_op(s[0]) }
pub proof fn strs() ensures "{"@ == seq!['{'], "}"@ == seq!['}'], "["@ == seq!['['], "]"@ == seq![']'], ":"@ == seq![':'], ","@ == seq![','], "="@ == seq!['='], "."@ == seq!['.'], ";"@ == seq![';'], "("@ == seq!['('], ")"@ == seq![')'] {
    reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit(":"); reveal_strlit(","); reveal_strlit("="); reveal_strlit("."); reveal_strlit(";"); reveal_strlit("("); reveal_strlit(")");
    assert("{"@ =~= seq!['{'] && "}"@ =~= seq!['}'] && "["@ =~= seq!['['] && "]"@ =~= seq![']'] && ":"@ =~= seq![':'] && ","@ =~= seq![','] && "="@ =~= seq!['='] && "."@ =~= seq!['.'] && ";"@ =~= seq![';'] && "("@ =~= seq!['('] && ")"@ =~= seq![')']);
}
//@ fn operator_to_token
  ensures op_tok(s@) ==> res is Some && tmatch(res->Some_0, ATok::Op(s@[0])), !op_tok(s@) ==> res is None
//@ start
  proof {
    strs();
    str_ext("{"); str_ext("}"); str_ext("["); str_ext("]"); str_ext(":"); str_ext(","); str_ext("="); str_ext("."); str_ext(";"); str_ext("("); str_ext(")");
    if op_tok(s@) { assert(s@ =~= seq![s@[0]]); }
  }
//@ fn one
  ensures res.s == c, res.e == c
//@ fn set
  requires arr.fin()
  ensures ranges_are(res@, arr.vseq()), ranges_ok(res@)
//@ sub Vec::new() => Vec::<VRangeIncl<char>>::new()
//@ sub arr: impl IntoIterator<Item = char> => arr: impl VInto<I: VIter<Item = char>>
//@ start
  let ghost s0 = arr.vseq();
//@ loop 0
  !vst0.inf(), vst0.n() == s0.len(), iseq(vst0) == s0, vk0 <= vst0.n(), result@.len() == vk0,
  forall|i: int| 0 <= i < vk0 ==> (#[trigger] result@[i]).s == s0[i] && result@[i].e == s0[i],
//@ loop 0 start
  proof { assert(iseq(vst0)[vk0 - 1] == vst0.at(vk0 - 1)); }
//@ fn id_start
  ensures ranges_ok(res@), forall|c: char| #[trigger] in_ranges(res@, c) == is_id0(c)
//@ tailres
  proof { let l = vres@; assert forall|c: char| #[trigger] in_ranges(l, c) == is_id0(c) by { reveal_with_fuel(in_upto, 5);  } }
//@ fn id_char
  ensures ranges_ok(res@), forall|c: char| #[trigger] in_ranges(res@, c) == is_id1(c)
//@ tailres
  proof { let l = vres@; assert forall|c: char| #[trigger] in_ranges(l, c) == is_id1(c) by { reveal_with_fuel(in_upto, 6);  } }
//@ fn operator_chars_with_dot
  ensures ranges_ok(res@), forall|c: char| #[trigger] in_ranges(res@, c) == is_op(c)
//@ tailres
  proof { let l = vres@; assert forall|c: char| #[trigger] in_ranges(l, c) == is_op(c) by { reveal_with_fuel(in_upto, 12); assert(l.len() == 11); } }
//@ sub .chain( => .vchain(
//@ fn terminal_for_number
  ensures ranges_ok(res@), forall|c: char| #[trigger] in_ranges(res@, c) == is_term(c)
//@ tailres
  proof { let l = vres@; assert forall|c: char| #[trigger] in_ranges(l, c) == is_term(c) by { reveal_with_fuel(in_upto, 17); assert(l.len() == 16); } }
//@ sub .chain( => .vchain(
//@ fn create_range_map
  requires ranges_ok(list@)
  ensures sorted(res.list@), forall|c: char| #[trigger] gv(res.list@, c) == (if in_ranges(list@, c) { t.k as int } else { -1 })
//@ loop 0
  ranges_ok(list@), !vst0.inf(), vst0.n() == list@.len(), vk0 <= vst0.n(),
  forall|i: int| 0 <= i < vst0.n() ==> #[trigger] vst0.at(i) == list@[i],
  sorted(result.list@), forall|c: char| #[trigger] gv(result.list@, c) == (if in_upto(list@, vk0, c) { t.k as int } else { -1 }),
//@ start
  proof { copies_state::<T, M>(); reveal(sorted); }
//@ loop 0 start
  proof { tm_facts::<T, M>(|c: char| 0int); }
//@ fn TokenizerState::push
  requires pre(self, *maps)
  ensures post(self, c, res)
  decreases (if self is Initial || self is ParseString { 0int } else { 1int }), 4int
//@ sub get_next_state(manager, (), c, &maps.initial, maps) => gns_initial(manager, (), c, &maps.initial, maps)
//@ sub get_next_state(manager, s, c, &maps.id, maps) => gns_id(manager, s, c, &maps.id, maps)
//@ sub get_next_state(manager, s, c, &maps.string, maps) => gns_string(manager, s, c, &maps.string, maps)
//@ sub get_next_state(manager, s, c, &maps.escape_char, maps) => gns_escape_char(manager, s, c, &maps.escape_char, maps)
//@ sub get_next_state(manager, s, c, &maps.unicode_char, maps) => gns_unicode_char(manager, s, c, &maps.unicode_char, maps)
//@ sub get_next_state(manager, s, c, &maps.zero, maps) => gns_zero(manager, s, c, &maps.zero, maps)
//@ sub get_next_state(manager, s, c, &maps.int, maps) => gns_int(manager, s, c, &maps.int, maps)
//@ sub get_next_state(manager, (), c, &maps.minus, maps) => gns_minus(manager, (), c, &maps.minus, maps)
//@ sub get_next_state(manager, s, c, &maps.frac_begin, maps) => gns_frac_begin(manager, s, c, &maps.frac_begin, maps)
//@ sub get_next_state(manager, s, c, &maps.frac, maps) => gns_frac(manager, s, c, &maps.frac, maps)
//@ sub get_next_state(manager, s, c, &maps.exp_begin, maps) => gns_exp_begin(manager, s, c, &maps.exp_begin, maps)
//@ sub get_next_state(manager, s, c, &maps.exp_sign, maps) => gns_exp_sign(manager, s, c, &maps.exp_sign, maps)
//@ sub get_next_state(manager, s, c, &maps.exp, maps) => gns_exp(manager, s, c, &maps.exp, maps)
//@ sub get_next_state(manager, s, c, &maps.big_int, maps) => gns_big_int(manager, s, c, &maps.big_int, maps)
//@ sub get_next_state(manager, (), c, &maps.new_line, maps) => gns_new_line(manager, (), c, &maps.new_line, maps)
//@ sub get_next_state(manager, (), c, &maps.comment_start, maps) => gns_comment_start(manager, (), c, &maps.comment_start, maps)
//@ sub get_next_state(manager, (), c, &maps.singleline_comment, maps) => gns_singleline_comment(manager, (), c, &maps.singleline_comment, maps)
//@ sub get_next_state(manager, (), c, &maps.multiline_comment, maps) => gns_multiline_comment(manager, (), c, &maps.multiline_comment, maps)
//@ sub get_next_state(manager, (), c, &maps.multiline_comment_asterix, maps) => gns_multiline_comment_asterix(manager, (), c, &maps.multiline_comment_asterix, maps)
//@ sub get_next_state(manager, s, c, &maps.operator, maps) => gns_operator(manager, s, c, &maps.operator, maps)
//@ fn get_next_state
  requires map_is(*tm, tf_initial()), pre(TokenizerState::<M::Dealloc>::Initial, *maps)
  ensures post(TokenizerState::<M::Dealloc>::Initial, c, res)
  decreases 0int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_initial<M: Manager + 'static>
//@ sub state: T => state: ()
//@ sub TransitionMap<T, M> => TransitionMap<(), M>
//@ sub f(manager => call_initial(*f, manager
//@ sub (tm.def)(manager => call_initial(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_initial(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_id()), pre(TokenizerState::<M::Dealloc>::ParseId(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseId(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_id<M: Manager + 'static>
//@ sub state: T => state: String
//@ sub TransitionMap<T, M> => TransitionMap<String, M>
//@ sub f(manager => call_id(*f, manager
//@ sub (tm.def)(manager => call_id(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_id(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_string()), pre(TokenizerState::<M::Dealloc>::ParseString(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseString(state), c, res)
  decreases 0int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_string<M: Manager + 'static>
//@ sub state: T => state: String
//@ sub TransitionMap<T, M> => TransitionMap<String, M>
//@ sub f(manager => call_string(*f, manager
//@ sub (tm.def)(manager => call_string(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_string(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_escape_char()), pre(TokenizerState::<M::Dealloc>::ParseEscapeChar(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseEscapeChar(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_escape_char<M: Manager + 'static>
//@ sub state: T => state: String
//@ sub TransitionMap<T, M> => TransitionMap<String, M>
//@ sub f(manager => call_escape_char(*f, manager
//@ sub (tm.def)(manager => call_escape_char(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_escape_char(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_unicode_char()), pre(TokenizerState::<M::Dealloc>::ParseUnicodeChar(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseUnicodeChar(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_unicode_char<M: Manager + 'static>
//@ sub state: T => state: ParseUnicodeCharState
//@ sub TransitionMap<T, M> => TransitionMap<ParseUnicodeCharState, M>
//@ sub f(manager => call_unicode_char(*f, manager
//@ sub (tm.def)(manager => call_unicode_char(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_unicode_char(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_zero()), pre(TokenizerState::<M::Dealloc>::ParseZero(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseZero(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_zero<M: Manager + 'static>
//@ sub state: T => state: Sign
//@ sub TransitionMap<T, M> => TransitionMap<Sign, M>
//@ sub f(manager => call_zero(*f, manager
//@ sub (tm.def)(manager => call_zero(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_zero(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_int()), pre(TokenizerState::<M::Dealloc>::ParseInt(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseInt(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_int<M: Manager + 'static>
//@ sub state: T => state: IntState<M::Dealloc>
//@ sub TransitionMap<T, M> => TransitionMap<IntState<M::Dealloc>, M>
//@ sub f(manager => call_int(*f, manager
//@ sub (tm.def)(manager => call_int(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_int(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_minus()), pre(TokenizerState::<M::Dealloc>::ParseMinus, *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseMinus, c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_minus<M: Manager + 'static>
//@ sub state: T => state: ()
//@ sub TransitionMap<T, M> => TransitionMap<(), M>
//@ sub f(manager => call_minus(*f, manager
//@ sub (tm.def)(manager => call_minus(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_minus(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_frac_begin()), pre(TokenizerState::<M::Dealloc>::ParseFracBegin(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseFracBegin(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_frac_begin<M: Manager + 'static>
//@ sub state: T => state: IntState<M::Dealloc>
//@ sub TransitionMap<T, M> => TransitionMap<IntState<M::Dealloc>, M>
//@ sub f(manager => call_frac_begin(*f, manager
//@ sub (tm.def)(manager => call_frac_begin(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_frac_begin(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_frac()), pre(TokenizerState::<M::Dealloc>::ParseFrac(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseFrac(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_frac<M: Manager + 'static>
//@ sub state: T => state: FloatState<M::Dealloc>
//@ sub TransitionMap<T, M> => TransitionMap<FloatState<M::Dealloc>, M>
//@ sub f(manager => call_frac(*f, manager
//@ sub (tm.def)(manager => call_frac(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_frac(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_exp_begin()), pre(TokenizerState::<M::Dealloc>::ParseExpBegin(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseExpBegin(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_exp_begin<M: Manager + 'static>
//@ sub state: T => state: ExpState<M::Dealloc>
//@ sub TransitionMap<T, M> => TransitionMap<ExpState<M::Dealloc>, M>
//@ sub f(manager => call_exp_begin(*f, manager
//@ sub (tm.def)(manager => call_exp_begin(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_exp_begin(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_exp_sign()), pre(TokenizerState::<M::Dealloc>::ParseExpSign(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseExpSign(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_exp_sign<M: Manager + 'static>
//@ sub state: T => state: ExpState<M::Dealloc>
//@ sub TransitionMap<T, M> => TransitionMap<ExpState<M::Dealloc>, M>
//@ sub f(manager => call_exp_sign(*f, manager
//@ sub (tm.def)(manager => call_exp_sign(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_exp_sign(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_exp()), pre(TokenizerState::<M::Dealloc>::ParseExp(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseExp(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_exp<M: Manager + 'static>
//@ sub state: T => state: ExpState<M::Dealloc>
//@ sub TransitionMap<T, M> => TransitionMap<ExpState<M::Dealloc>, M>
//@ sub f(manager => call_exp(*f, manager
//@ sub (tm.def)(manager => call_exp(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_exp(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_big_int()), pre(TokenizerState::<M::Dealloc>::ParseBigInt(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseBigInt(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_big_int<M: Manager + 'static>
//@ sub state: T => state: JsBigintMutRef<M::Dealloc>
//@ sub TransitionMap<T, M> => TransitionMap<JsBigintMutRef<M::Dealloc>, M>
//@ sub f(manager => call_big_int(*f, manager
//@ sub (tm.def)(manager => call_big_int(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_big_int(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_new_line()), pre(TokenizerState::<M::Dealloc>::ParseNewLine, *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseNewLine, c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_new_line<M: Manager + 'static>
//@ sub state: T => state: ()
//@ sub TransitionMap<T, M> => TransitionMap<(), M>
//@ sub f(manager => call_new_line(*f, manager
//@ sub (tm.def)(manager => call_new_line(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_new_line(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_comment_start()), pre(TokenizerState::<M::Dealloc>::ParseCommentStart, *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseCommentStart, c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_comment_start<M: Manager + 'static>
//@ sub state: T => state: ()
//@ sub TransitionMap<T, M> => TransitionMap<(), M>
//@ sub f(manager => call_comment_start(*f, manager
//@ sub (tm.def)(manager => call_comment_start(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_comment_start(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_singleline_comment()), pre(TokenizerState::<M::Dealloc>::ParseSinglelineComment, *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseSinglelineComment, c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_singleline_comment<M: Manager + 'static>
//@ sub state: T => state: ()
//@ sub TransitionMap<T, M> => TransitionMap<(), M>
//@ sub f(manager => call_singleline_comment(*f, manager
//@ sub (tm.def)(manager => call_singleline_comment(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_singleline_comment(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_multiline_comment()), pre(TokenizerState::<M::Dealloc>::ParseMultilineComment, *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseMultilineComment, c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_multiline_comment<M: Manager + 'static>
//@ sub state: T => state: ()
//@ sub TransitionMap<T, M> => TransitionMap<(), M>
//@ sub f(manager => call_multiline_comment(*f, manager
//@ sub (tm.def)(manager => call_multiline_comment(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_multiline_comment(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_multiline_comment_asterix()), pre(TokenizerState::<M::Dealloc>::ParseMultilineCommentAsterix, *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseMultilineCommentAsterix, c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_multiline_comment_asterix<M: Manager + 'static>
//@ sub state: T => state: ()
//@ sub TransitionMap<T, M> => TransitionMap<(), M>
//@ sub f(manager => call_multiline_comment_asterix(*f, manager
//@ sub (tm.def)(manager => call_multiline_comment_asterix(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_multiline_comment_asterix(c)); }
//@ fn get_next_state
  requires map_is(*tm, tf_operator()), pre(TokenizerState::<M::Dealloc>::ParseOperator(state), *maps)
  ensures post(TokenizerState::<M::Dealloc>::ParseOperator(state), c, res)
  decreases 1int, 3int
//@ sub fn get_next_state<T: 'static, M: Manager + 'static> => fn gns_operator<M: Manager + 'static>
//@ sub state: T => state: String
//@ sub TransitionMap<T, M> => TransitionMap<String, M>
//@ sub f(manager => call_operator(*f, manager
//@ sub (tm.def)(manager => call_operator(tm.def, manager
//@ start
  proof { total_char(); reveal(map_is); assert(tk(*tm, c) == tab_operator(c)); }
//@ fn create_initial_transitions
  ensures map_is(res, tf_initial())
//@ start
  proof { tm_facts::<(), M>(tf_initial()); reveal_with_fuel(tab_ok, 10); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_initial()); }
//@ lift tr_initial ()
  requires pre(TokenizerState::<M::Dealloc>::Initial, *$t), tab_initial($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::Initial, $c, res)
  decreases 0int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::Initial, *$t), tab_initial($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::Initial, $c, res)
  decreases 0int, 2int
//@ fn create_id_transitions
  ensures map_is(res, tf_id())
//@ start
  proof { tm_facts::<String, M>(tf_id()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_id()); }
//@ lift tr_id String
  requires pre(TokenizerState::<M::Dealloc>::ParseId($s), *$t), tab_id($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseId($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseId($s), *$t), tab_id($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseId($s), $c, res)
  decreases 1int, 2int
//@ fn create_string_transactions
  ensures map_is(res, tf_string())
//@ start
  proof { tm_facts::<String, M>(tf_string()); reveal_with_fuel(tab_ok, 3); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_string()); }
//@ lift tr_string String
  requires pre(TokenizerState::<M::Dealloc>::ParseString($s), *$t), tab_string($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseString($s), $c, res)
  decreases 0int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseString($s), *$t), tab_string($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseString($s), $c, res)
  decreases 0int, 2int
//@ fn create_escape_char_transactions
  ensures map_is(res, tf_escape_char())
//@ start
  proof { tm_facts::<String, M>(tf_escape_char()); reveal_with_fuel(tab_ok, 8); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_escape_char()); }
//@ lift tr_escape_char String
  requires pre(TokenizerState::<M::Dealloc>::ParseEscapeChar($s), *$t), tab_escape_char($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseEscapeChar($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseEscapeChar($s), *$t), tab_escape_char($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseEscapeChar($s), $c, res)
  decreases 1int, 2int
//@ fn create_unicode_char_transactions
  ensures map_is(res, tf_unicode_char())
//@ start
  proof { tm_facts::<ParseUnicodeCharState, M>(tf_unicode_char()); reveal_with_fuel(tab_ok, 4); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_unicode_char()); }
//@ lift tr_unicode_char ParseUnicodeCharState
  requires pre(TokenizerState::<M::Dealloc>::ParseUnicodeChar($s), *$t), tab_unicode_char($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseUnicodeChar($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseUnicodeChar($s), *$t), tab_unicode_char($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseUnicodeChar($s), $c, res)
  decreases 1int, 2int
//@ fn create_zero_transactions
  ensures map_is(res, tf_zero())
//@ start
  proof { tm_facts::<Sign, M>(tf_zero()); reveal_with_fuel(tab_ok, 5); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_zero()); }
//@ lift tr_zero Sign
  requires pre(TokenizerState::<M::Dealloc>::ParseZero($s), *$t), tab_zero($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseZero($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseZero($s), *$t), tab_zero($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseZero($s), $c, res)
  decreases 1int, 2int
//@ fn create_int_transactions
  ensures map_is(res, tf_int())
//@ start
  proof { tm_facts::<IntState<M::Dealloc>, M>(tf_int()); reveal_with_fuel(tab_ok, 6); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_int()); }
//@ lift tr_int IntState<M::Dealloc>
  requires pre(TokenizerState::<M::Dealloc>::ParseInt($s), *$t), tab_int($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseInt($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseInt($s), *$t), tab_int($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseInt($s), $c, res)
  decreases 1int, 2int
//@ fn create_minus_transactions
  ensures map_is(res, tf_minus())
//@ start
  proof { tm_facts::<(), M>(tf_minus()); reveal_with_fuel(tab_ok, 3); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_minus()); }
//@ lift tr_minus ()
  requires pre(TokenizerState::<M::Dealloc>::ParseMinus, *$t), tab_minus($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseMinus, $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseMinus, *$t), tab_minus($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseMinus, $c, res)
  decreases 1int, 2int
//@ fn create_frac_begin_transactions
  ensures map_is(res, tf_frac_begin())
//@ start
  proof { tm_facts::<IntState<M::Dealloc>, M>(tf_frac_begin()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_frac_begin()); }
//@ lift tr_frac_begin IntState<M::Dealloc>
  requires pre(TokenizerState::<M::Dealloc>::ParseFracBegin($s), *$t), tab_frac_begin($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseFracBegin($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseFracBegin($s), *$t), tab_frac_begin($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseFracBegin($s), $c, res)
  decreases 1int, 2int
//@ fn create_frac_transactions
  ensures map_is(res, tf_frac())
//@ start
  proof { tm_facts::<FloatState<M::Dealloc>, M>(tf_frac()); reveal_with_fuel(tab_ok, 4); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_frac()); }
//@ lift tr_frac FloatState<M::Dealloc>
  requires pre(TokenizerState::<M::Dealloc>::ParseFrac($s), *$t), tab_frac($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseFrac($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseFrac($s), *$t), tab_frac($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseFrac($s), $c, res)
  decreases 1int, 2int
//@ fn create_exp_begin_transactions
  ensures map_is(res, tf_exp_begin())
//@ start
  proof { tm_facts::<ExpState<M::Dealloc>, M>(tf_exp_begin()); reveal_with_fuel(tab_ok, 4); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_exp_begin()); }
//@ lift tr_exp_begin ExpState<M::Dealloc>
  requires pre(TokenizerState::<M::Dealloc>::ParseExpBegin($s), *$t), tab_exp_begin($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseExpBegin($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseExpBegin($s), *$t), tab_exp_begin($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseExpBegin($s), $c, res)
  decreases 1int, 2int
//@ fn create_exp_sign_transactions
  ensures map_is(res, tf_exp_sign())
//@ start
  proof { tm_facts::<ExpState<M::Dealloc>, M>(tf_exp_sign()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_exp_sign()); }
//@ lift tr_exp_sign ExpState<M::Dealloc>
  requires pre(TokenizerState::<M::Dealloc>::ParseExpSign($s), *$t), tab_exp_sign($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseExpSign($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseExpSign($s), *$t), tab_exp_sign($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseExpSign($s), $c, res)
  decreases 1int, 2int
//@ fn create_exp_transactions
  ensures map_is(res, tf_exp())
//@ start
  proof { tm_facts::<ExpState<M::Dealloc>, M>(tf_exp()); reveal_with_fuel(tab_ok, 3); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_exp()); }
//@ lift tr_exp ExpState<M::Dealloc>
  requires pre(TokenizerState::<M::Dealloc>::ParseExp($s), *$t), tab_exp($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseExp($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseExp($s), *$t), tab_exp($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseExp($s), $c, res)
  decreases 1int, 2int
//@ liftproof 2
  proof { assert(sat63($s.e as int) == $s.e); }
//@ fn create_big_int_transactions
  ensures map_is(res, tf_big_int())
//@ start
  proof { tm_facts::<JsBigintMutRef<M::Dealloc>, M>(tf_big_int()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_big_int()); }
//@ lift tr_big_int JsBigintMutRef<M::Dealloc>
  requires pre(TokenizerState::<M::Dealloc>::ParseBigInt($s), *$t), tab_big_int($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseBigInt($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseBigInt($s), *$t), tab_big_int($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseBigInt($s), $c, res)
  decreases 1int, 2int
//@ fn create_new_line_transactions
  ensures map_is(res, tf_new_line())
//@ start
  proof { tm_facts::<(), M>(tf_new_line()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_new_line()); }
//@ lift tr_new_line ()
  requires pre(TokenizerState::<M::Dealloc>::ParseNewLine, *$t), tab_new_line($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseNewLine, $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseNewLine, *$t), tab_new_line($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseNewLine, $c, res)
  decreases 1int, 2int
//@ fn create_comment_start_transactions
  ensures map_is(res, tf_comment_start())
//@ start
  proof { tm_facts::<(), M>(tf_comment_start()); reveal_with_fuel(tab_ok, 3); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_comment_start()); }
//@ lift tr_comment_start ()
  requires pre(TokenizerState::<M::Dealloc>::ParseCommentStart, *$t), tab_comment_start($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseCommentStart, $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseCommentStart, *$t), tab_comment_start($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseCommentStart, $c, res)
  decreases 1int, 2int
//@ fn create_singleline_comment_transactions
  ensures map_is(res, tf_singleline_comment())
//@ start
  proof { tm_facts::<(), M>(tf_singleline_comment()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_singleline_comment()); }
//@ lift tr_singleline_comment ()
  requires pre(TokenizerState::<M::Dealloc>::ParseSinglelineComment, *$t), tab_singleline_comment($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseSinglelineComment, $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseSinglelineComment, *$t), tab_singleline_comment($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseSinglelineComment, $c, res)
  decreases 1int, 2int
//@ fn create_multiline_comment_transactions
  ensures map_is(res, tf_multiline_comment())
//@ start
  proof { tm_facts::<(), M>(tf_multiline_comment()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_multiline_comment()); }
//@ lift tr_multiline_comment ()
  requires pre(TokenizerState::<M::Dealloc>::ParseMultilineComment, *$t), tab_multiline_comment($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseMultilineComment, $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseMultilineComment, *$t), tab_multiline_comment($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseMultilineComment, $c, res)
  decreases 1int, 2int
//@ fn create_multiline_comment_asterix_transactions
  ensures map_is(res, tf_multiline_comment_asterix())
//@ start
  proof { tm_facts::<(), M>(tf_multiline_comment_asterix()); reveal_with_fuel(tab_ok, 3); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_multiline_comment_asterix()); }
//@ lift tr_multiline_comment_asterix ()
  requires pre(TokenizerState::<M::Dealloc>::ParseMultilineCommentAsterix, *$t), tab_multiline_comment_asterix($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseMultilineCommentAsterix, $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseMultilineCommentAsterix, *$t), tab_multiline_comment_asterix($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseMultilineCommentAsterix, $c, res)
  decreases 1int, 2int
//@ fn create_operator_transactions
  ensures map_is(res, tf_operator())
//@ start
  proof { tm_facts::<String, M>(tf_operator()); reveal_with_fuel(tab_ok, 2); reveal_with_fuel(in_upto, 6); }
//@ tailres
  proof { map_end(vres, tf_operator()); }
//@ lift tr_operator String
  requires pre(TokenizerState::<M::Dealloc>::ParseOperator($s), *$t), tab_operator($c) == $k
  ensures post(TokenizerState::<M::Dealloc>::ParseOperator($s), $c, res)
  decreases 1int, 1int
//@ liftcall
  requires pre(TokenizerState::<M::Dealloc>::ParseOperator($s), *$t), tab_operator($c) == f.k
  ensures post(TokenizerState::<M::Dealloc>::ParseOperator($s), $c, res)
  decreases 1int, 2int
//@ fn ParseUnicodeCharState::push
  requires oku(self), i < 16
  ensures ({ let v = self.unicode as int / p16(self.index as int) * 16 + i;
    if self.index < 3 { res.0@.len() == 0 && aview(res.1) == ASt::Uni(self.s@, v, self.index + 1) && good(res.1) }
    else if scalar(v) { res.0@.len() == 0 && aview(res.1) == ASt::Str(self.s@.push(chr(v))) }
    else { tvm(res.0@, one_tok(ATok::Err(ErrorType::InvalidHex))) && res.1 is Initial } })
//@ start
  proof {
    let (u, x) = (self.unicode, i);
    assert forall|c: char| #[trigger] cpt(c) == c as int by {}
    assert(x < 16 ==> x << 12 == x * 4096 && 0 | (x << 12) == x * 4096) by(bit_vector);
    assert(x < 16 && u % 4096 == 0 && u < 65536 ==> u | (x << 8) == u + x * 256) by(bit_vector);
    assert(x < 16 && u % 256 == 0 && u < 65536 ==> u | (x << 4) == u + x * 16) by(bit_vector);
    assert(x < 16 && u % 16 == 0 && u < 65536 ==> u | (x << 0) == u + x) by(bit_vector);
  }
//@ arm #0 continue_string_state
  proof { assert(cpt(c) == new_unicode); let d = chr(new_unicode as int); assert(cpt(d) == new_unicode); }
//@ fn continue_string_state
  ensures res.0@.len() == 0, aview(res.1) == ASt::Str(s@.push(c)), good(res.1), fe_of(res.1) == 0
//@ fn transfer_state
  requires pre(state, *maps)
  ensures res.0@.len() == vec@.len() + step(aview(state), c).0.len(),
    forall|i: int| 0 <= i < res.0@.len() ==> (if i < vec@.len() { #[trigger] res.0@[i] == vec@[i] } else { tmatch(res.0@[i], step(aview(state), c).0[i - vec@.len()]) }),
    aview(res.1) == step(aview(state), c).1, good(res.1), fe_of(res.1) >= fe_of(state) - 1
  decreases (if state is Initial || state is ParseString { 0int } else { 1int }), 5int
//@ fn tokenize_invalid_number
  requires maps_ok(*maps)
  ensures tvm(res.0@, bad_num(c).0), aview(res.1) == bad_num(c).1, good(res.1), fe_of(res.1) >= -1
  decreases 0int, 6int
//@ fn create_transition_maps
  ensures maps_ok(res)
//@ fn TokenizerState::push_mut
  requires pre(*old(self), *tm)
  ensures post(*old(self), c, (res, *final(self)))
//@ fn TokenizerState::end
  requires good(self)
  ensures tvm(res@, fin(aview(self)))
//@ start
  let ghost st0 = self; proof { assert(self is ParseExp ==> sat63(self->ParseExp_0.e as int) == self->ParseExp_0.e); }
//@ tailres
proof { let l = fin(aview(st0)); assert(st0 is Initial ==> tvm(vres@, l)); assert(st0 is ParseId ==> tvm(vres@, l)); assert(st0 is ParseString ==> tvm(vres@, l)); assert(st0 is ParseZero ==> tvm(vres@, l)); assert(st0 is ParseInt ==> tvm(vres@, l)); assert(st0 is ParseFrac ==> tvm(vres@, l)); assert(st0 is ParseExp ==> tvm(vres@, l)); assert(st0 is ParseBigInt ==> tvm(vres@, l)); assert(st0 is ParseMinus ==> tvm(vres@, l)); assert(st0 is ParseOperator ==> tvm(vres@, l)); }
//@ fn TokenizerStateIterator::new
  requires chars.inv(), !chars.inf(), chars.n() < FE()
  ensures itok_ok(res), stream(res, lex(ASt::Init, iseq(chars)))
//@ tailres
  proof { reveal(stream); let l = lex(ASt::Init, iseq(chars)); assert(l.take(0) =~= Seq::empty()); assert(l.skip(0) =~= l); }
//@ fn <Iterator for TokenizerStateIterator<T, M>>::next
//@ head impl<T: VIter<Item = char>, M: Manager + 'static> TokenizerStateIterator<T, M>
//@ sub Option<Self::Item> => Option<JsonToken<M::Dealloc>>
  requires itok_ok(*old(self))
  ensures itok_ok(*final(self)), left(*final(self)) <= left(*old(self)), left(*final(self)) == left(*old(self)) && res is Some ==> final(self).cache@.len() < old(self).cache@.len(),
    forall|l: Seq<ATok>| #[trigger] stream(*old(self), l) ==> match res { Some(t) => l.len() > 0 && tmatch(t, l[0]) && stream(*final(self), l.skip(1)), None => l.len() == 0 }
//@ start
  let ghost self0 = *self;
//@ loop 0
  invariant self0 == *old(self), itok_ok(*self), left(*self) <= left(self0), left(*self) == left(self0) ==> self.cache@ == self0.cache@, forall|l: Seq<ATok>| #[trigger] stream(self0, l) ==> stream(*self, l),
  decreases left(*self)
//@ loop 0 start
  let ghost self1 = *self;
  proof { self1.chars.n_nonneg(); }
//@ before return Some(result)
  proof { self.chars.n_nonneg(); assert forall|l: Seq<ATok>| #[trigger] stream(self1, l) implies l.len() > 0 && tmatch(result, l[0]) && stream(*self, l.skip(1)) by { st_pop(self1, *self, l); } }
//@ before return None
  proof { assert forall|l: Seq<ATok>| #[trigger] stream(self1, l) implies l.len() == 0 by { reveal(stream); assert(l.skip(0) =~= l); } }
//@ loop 0 end
  proof {
    let (s, t) = (aview(self1.state), iseq(self1.chars));
    let x = if self.end { fin(s) } else { step(s, t[0]).0 };
    if self.end { assert(t =~= Seq::empty()); } else { lex_step(s, t, iseq(self.chars)); }
    assert(rest(self1) =~= x + rest(*self));
    assert forall|l: Seq<ATok>| #[trigger] stream(self1, l) implies stream(*self, l) by { st_push(self1, *self, x, l); }
  }
//@ fn tokenize
  requires input@.len() < FE()
  ensures tvm(res@, lex(ASt::Init, input@))
//@ raw
} // module end
}
fn main(){}
