//@ raw
// ---------------------------------------------------------------------------------------------
// What the serializers write (S01, S02), cut into tokens as T01 says and read as P01 says, is the value again.
// ---------------------------------------------------------------------------------------------
// the token of the parser for a token of the text; a number is the double that its decimal denotes (N01)
pub open spec fn pm(p: PTok, a: ATok) -> bool {
    match a {
        ATok::Num(s, dg, e) => p is Num && is_dec(p->Num_0, s, dg, e),
        ATok::Str(s) => p == PTok::Str(s), ATok::Op(c) => p == PTok::Op(c), ATok::Err(_) => p is Bad, ATok::Big(n) => p == PTok::Big(n), ATok::Id(s) => p == PTok::Id(s), ATok::Nl => p is Nl,
    }
}
pub open spec fn ptm(p: Seq<PTok>, l: Seq<ATok>) -> bool { p.len() == l.len() && forall|i: int| 0 <= i < p.len() ==> pm(#[trigger] p[i], l[i]) }
// ---- strings: code units that are no surrogates
pub open spec fn bmp(s: Seq<u16>) -> bool { forall|i: int| 0 <= i < s.len() ==> scalar(#[trigger] s[i] as int) }
pub open spec fn uni(s: Seq<u16>) -> Seq<char> { s.map_values(|c: u16| chr(c as int)) }
pub proof fn ax_u16s(s: Seq<u16>) requires bmp(s) ensures u16s(uni(s)) == s decreases s.len()
{
    reveal(u16s);
    if s.len() == 0 { assert(u16s(uni(s)) =~= s); }
    else {
        let (d, c) = (s.drop_last(), s.last());
        assert(scalar(c as int)); chr_is(c as int); assert(uni(s).drop_last() =~= uni(d)); assert(uni(s).last() == chr(c as int));
        assert(bmp(d)) by { assert forall|i: int| 0 <= i < d.len() implies scalar(#[trigger] d[i] as int) by { assert(d[i] == s[i]); } }
        ax_u16s(d); assert(u16s(uni(s)) =~= s);
    }
}
pub proof fn chr_is(n: int) requires scalar(n) ensures cpt(chr(n)) == n { let c = (n as u32) as char; assert(cpt(c) == n); }
// ---- numbers: Display writes a decimal that only f is nearest to
pub open spec fn finite(f: f64) -> bool { fbits(f) % 0x8000_0000_0000_0000 < 0x7ff0_0000_0000_0000 }
pub uninterp spec fn d_sign(f: f64) -> Sign;
pub uninterp spec fn d_int(f: f64) -> Seq<char>;
pub uninterp spec fn d_frac(f: f64) -> Seq<char>;
pub open spec fn digs(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) }
pub open spec fn cont(a: int, s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { a } else { cont(a * 10 + (s[0] as int - '0' as int), s.skip(1)) } }
pub open spec fn d_val(f: f64) -> int { cont(cont(0, d_int(f)), d_frac(f)) }
pub axiom fn ax_f64(f: f64) requires finite(f)
    ensures digs(d_int(f)), digs(d_frac(f)), d_int(f).len() > 0, d_int(f).len() > 1 ==> d_int(f)[0] != '0',
        f64_text(f) == (if d_sign(f) is Negative { seq!['-'] } else { Seq::empty() }) + d_int(f) + (if d_frac(f).len() > 0 { seq!['.'] + d_frac(f) } else { Seq::empty() }),
        forall|g: f64| #[trigger] is_dec(g, d_sign(f), d_val(f), -(d_frac(f).len() as int)) ==> g == f;
pub proof fn ax_nat(n: nat) ensures nat_text(n).len() > 0, digs(nat_text(n)), forall|m: nat| nat_text(n) == #[trigger] nat_text(m) ==> n == m
{ nat_digs(n); assert forall|m: nat| nat_text(n) == #[trigger] nat_text(m) implies n == m by { nat_inj(n, m); } }
pub proof fn nat_digs(n: nat) ensures nat_text(n).len() > 0, digs(nat_text(n)) decreases n { reveal(nat_text); if n >= 10 { nat_digs(n / 10); } }
pub proof fn nat_inj(n: nat, m: nat) requires nat_text(n) == nat_text(m) ensures n == m decreases n
{
    reveal(nat_text); let (a, b) = (nat_text(n), nat_text(m));
    assert(a.last() == dec_digit(n % 10)); assert(b.last() == dec_digit(m % 10));
    if n >= 10 { nat_digs(n / 10); } if m >= 10 { nat_digs(m / 10); }
    if n >= 10 && m >= 10 { assert(a.drop_last() =~= nat_text(n / 10)); assert(b.drop_last() =~= nat_text(m / 10)); nat_inj(n / 10, m / 10); }
}
// ---- the token in the text for a token of the parser
pub open spec fn av(p: PTok) -> ATok {
    match p { PTok::Num(f) => num(d_sign(f), d_val(f), -(d_frac(f).len() as int)), PTok::Str(s) => ATok::Str(s), PTok::Id(s) => ATok::Id(s), PTok::Big(n) => ATok::Big(n), PTok::Op(c) => ATok::Op(c), PTok::Nl => ATok::Nl, PTok::Bad => arbitrary() }
}
pub open spec fn avs(s: Seq<PTok>) -> Seq<ATok> { s.map_values(|p: PTok| av(p)) }
pub open spec fn fins(s: Seq<PTok>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Bad) && (s[i] is Num ==> finite(s[i]->Num_0)) }
pub proof fn only(p: Seq<PTok>, s: Seq<PTok>) requires fins(s), ptm(p, avs(s)) ensures p == s {
    assert forall|i: int| 0 <= i < s.len() implies p[i] == s[i] by { assert(pm(p[i], avs(s)[i])); if s[i] is Num { ax_f64(s[i]->Num_0); } }
    assert(p =~= s);
}
// the text t is the tokens p, then what the text r is
pub open spec fn lx(st: ASt, t: Seq<char>, p: Seq<PTok>, r: Seq<char>) -> bool { lex(st, t) == avs(p) + lex(ASt::Init, r) && fins(p) }
// what may stand after a value
pub open spec fn okr(r: Seq<char>) -> bool { r.len() == 0 || is_term(r[0]) }
pub proof fn lx_add(t: Seq<char>, p: Seq<PTok>, u: Seq<char>, q: Seq<PTok>, r: Seq<char>)
    requires lx(ASt::Init, t, p, u), lx(ASt::Init, u, q, r) ensures lx(ASt::Init, t, p + q, r)
{ assert(avs(p + q) =~= avs(p) + avs(q)); assert(avs(p) + (avs(q) + lex(ASt::Init, r)) =~= avs(p) + avs(q) + lex(ASt::Init, r));
  assert forall|i: int| 0 <= i < (p + q).len() implies !(#[trigger] (p + q)[i] is Bad) && ((p + q)[i] is Num ==> finite((p + q)[i]->Num_0)) by { if i < p.len() { assert((p + q)[i] == p[i]); } else { assert((p + q)[i] == q[i - p.len()]); } } }
pub proof fn flushes(st: ASt, a: ATok, r: Seq<char>) requires fin(st) =~= one_tok(a), r.len() > 0 ==> step(st, r[0]) == flush(a, r[0]) ensures lex(st, r) == one_tok(a) + lex(ASt::Init, r)
{ if r.len() > 0 { assert(one_tok(a) + init_step(r[0]).0 + lex(init_step(r[0]).1, r.skip(1)) =~= one_tok(a) + (init_step(r[0]).0 + lex(init_step(r[0]).1, r.skip(1)))); } else { assert(one_tok(a) + fin(ASt::Init) =~= one_tok(a)); } }
pub proof fn one1(st: ASt, t: Seq<char>, p: PTok, r: Seq<char>) requires lex(st, t) == one_tok(av(p)) + lex(ASt::Init, r), !(p is Bad), p is Num ==> finite(p->Num_0) ensures lx(st, t, seq![p], r) { assert(avs(seq![p]) =~= one_tok(av(p))); }
// one char that says nothing but the next state
pub proof fn goes(st: ASt, c: char, r: Seq<char>) requires step(st, c).0 =~= Seq::<ATok>::empty() ensures lex(st, seq![c] + r) == lex(step(st, c).1, r)
{ let t = seq![c] + r; assert(t.skip(1) =~= r); assert(t[0] == c); assert(step(st, c).0 + lex(step(st, c).1, r) =~= lex(step(st, c).1, r)); }
pub proof fn lx_op(c: char, r: Seq<char>) requires is_op(c) ensures lx(ASt::Init, seq![c] + r, seq![PTok::Op(c)], r)
{ goes(ASt::Init, c, r); flushes(ASt::Op(seq![c]), ATok::Op(c), r); one1(ASt::Init, seq![c] + r, PTok::Op(c), r); }
pub open spec fn id1s(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_id1(#[trigger] s[i]) }
pub proof fn lx_id1(a: Seq<char>, s: Seq<char>, r: Seq<char>) requires id1s(s), r.len() > 0 ==> !is_id1(r[0]) ensures lex(ASt::Id(a), s + r) == one_tok(ATok::Id(a + s)) + lex(ASt::Init, r) decreases s.len()
{
    if s.len() == 0 { assert(s + r =~= r); assert(a + s =~= a); flushes(ASt::Id(a), ATok::Id(a), r); }
    else { assert(s + r =~= seq![s[0]] + (s.skip(1) + r)); goes(ASt::Id(a), s[0], s.skip(1) + r); lx_id1(a.push(s[0]), s.skip(1), r); assert(a.push(s[0]) + s.skip(1) =~= a + s); }
}
pub proof fn lx_id(s: Seq<char>, r: Seq<char>) requires s.len() > 0, is_id0(s[0]), id1s(s), r.len() > 0 ==> !is_id1(r[0]) ensures lx(ASt::Init, s + r, seq![PTok::Id(s)], r)
{ assert(s + r =~= seq![s[0]] + (s.skip(1) + r)); goes(ASt::Init, s[0], s.skip(1) + r); lx_id1(seq![s[0]], s.skip(1), r); assert(seq![s[0]] + s.skip(1) =~= s); one1(ASt::Init, s + r, PTok::Id(s), r); }
pub proof fn chr_small(c: u16) requires c < 0x80 ensures chr(c as int) == (c as u8) as char { let d = (c as u8) as char; assert(cpt(d) == c as int); assert(cpt(chr(c as int)) == c as int); }
pub proof fn hexes(n: int) requires 0 <= n < 16 ensures hex(hex_digit(n)) == n {}
// one unit of a string
pub proof fn lx_esc(a: Seq<char>, c: u16, r: Seq<char>) requires scalar(c as int) ensures lex(ASt::Str(a), esc(c) + r) == lex(ASt::Str(a.push(chr(c as int))), r)
{
    let st = ASt::Str(a);
    if c < 0x80 { chr_small(c); }
    if c < 0x80 && !(c < 0x20 || c == 0x5C || c == 0x22) { goes(st, (c as u8) as char, r); }
    else {
        let x = esc(c); let e = ASt::Esc(a);
        assert(x + r =~= seq!['\\'] + (x.skip(1) + r)); goes(st, '\\', x.skip(1) + r);
        assert(x.skip(1) + r =~= seq![x[1]] + (x.skip(2) + r)); goes(e, x[1], x.skip(2) + r);
        if x.len() == 2 { assert(x.skip(2) + r =~= r); }
        else {
            let n = c as int; let (h0, h1, h2, h3) = (n / 4096, n / 256 % 16, n / 16 % 16, n % 16);
            hexes(h0); hexes(h1); hexes(h2); hexes(h3);
            assert(x =~= seq!['\\', 'u', hex_digit(h0), hex_digit(h1), hex_digit(h2), hex_digit(h3)]);
            assert(x.skip(2) + r =~= seq![x[2]] + (x.skip(3) + r)); goes(ASt::Uni(a, 0, 0), x[2], x.skip(3) + r);
            assert(x.skip(3) + r =~= seq![x[3]] + (x.skip(4) + r)); goes(ASt::Uni(a, h0, 1), x[3], x.skip(4) + r);
            assert(x.skip(4) + r =~= seq![x[4]] + (x.skip(5) + r)); goes(ASt::Uni(a, h0 * 16 + h1, 2), x[4], x.skip(5) + r);
            assert(x.skip(5) + r =~= seq![x[5]] + r); assert(((h0 * 16 + h1) * 16 + h2) * 16 + h3 == n);
            goes(ASt::Uni(a, (h0 * 16 + h1) * 16 + h2, 3), x[5], r);
        }
    }
}
pub proof fn lx_escs(a: Seq<char>, s: Seq<u16>, r: Seq<char>) requires bmp(s) ensures lex(ASt::Str(a), escs(s) + r) == lex(ASt::Str(a + uni(s)), r) decreases s.len()
{
    if s.len() == 0 { assert(escs(s) + r =~= r); assert(a + uni(s) =~= a); }
    else {
        let (d, c) = (s.drop_last(), s.last());
        assert(escs(s) + r =~= escs(d) + (esc(c) + r)); lx_escs(a, d, esc(c) + r); lx_esc(a + uni(d), c, r);
        assert((a + uni(d)).push(chr(c as int)) =~= a + uni(s));
    }
}
pub proof fn lx_str(s: Seq<u16>, r: Seq<char>) requires bmp(s) ensures lx(ASt::Init, jstr(s) + r, seq![PTok::Str(uni(s))], r)
{
    let q = seq!['"'];
    assert(jstr(s) + r =~= q + (escs(s) + (q + r))); goes(ASt::Init, '"', escs(s) + (q + r));
    lx_escs(Seq::empty(), s, q + r); assert(Seq::<char>::empty() + uni(s) =~= uni(s));
    assert((q + r).skip(1) =~= r); assert((q + r)[0] == '"'); one1(ASt::Init, jstr(s) + r, PTok::Str(uni(s)), r);
}
pub proof fn lx_int(s: Sign, a: int, x: Seq<char>, r: Seq<char>) requires digs(x) ensures lex(ASt::Int(s, a), x + r) == lex(ASt::Int(s, cont(a, x)), r) decreases x.len()
{ if x.len() == 0 { assert(x + r =~= r); } else { assert(x + r =~= seq![x[0]] + (x.skip(1) + r)); goes(ASt::Int(s, a), x[0], x.skip(1) + r); lx_int(s, a * 10 + (x[0] as int - '0' as int), x.skip(1), r); } }
pub proof fn lx_frac(s: Sign, a: int, f: int, x: Seq<char>, r: Seq<char>) requires digs(x) ensures lex(ASt::Frac(s, a, f), x + r) == lex(ASt::Frac(s, cont(a, x), f - x.len()), r) decreases x.len()
{ if x.len() == 0 { assert(x + r =~= r); } else { assert(x + r =~= seq![x[0]] + (x.skip(1) + r)); goes(ASt::Frac(s, a, f), x[0], x.skip(1) + r); lx_frac(s, a * 10 + (x[0] as int - '0' as int), f - 1, x.skip(1), r); } }
pub proof fn lx_num(f: f64, r: Seq<char>) requires finite(f), okr(r) ensures lx(ASt::Init, f64_text(f) + r, seq![PTok::Num(f)], r)
{
    ax_f64(f);
    let (s, x, y) = (d_sign(f), d_int(f), d_frac(f)); let t = f64_text(f) + r;
    let tail = (if y.len() > 0 { seq!['.'] + y } else { Seq::<char>::empty() }) + r;
    let st0 = if s is Negative { ASt::Minus } else { ASt::Init };
    if s is Negative { assert(t =~= seq!['-'] + (x + tail)); goes(ASt::Init, '-', x + tail); } else { assert(t =~= x + tail); }
    assert(lex(ASt::Init, t) == lex(st0, x + tail));
    assert(x + tail =~= seq![x[0]] + (x.skip(1) + tail));
    assert(dig(x[0])); goes(st0, x[0], x.skip(1) + tail);
    let a = cont(0, x); let z = x[0] == '0';
    let st = if z { ASt::Zero(s) } else { ASt::Int(s, a) };
    assert(0 * 10 + (x[0] as int - '0' as int) == x[0] as int - '0' as int);
    if z { assert(x.skip(1) + tail =~= tail); assert(cont(0, x) == 0) by { assert(x.skip(1).len() == 0); } } else { assert(digs(x.skip(1))) by { assert forall|i: int| 0 <= i < x.skip(1).len() implies dig(#[trigger] x.skip(1)[i]) by { assert(x.skip(1)[i] == x[i + 1]); } } lx_int(s, x[0] as int - '0' as int, x.skip(1), tail); }
    assert(lex(ASt::Init, t) == lex(st, tail));
    if y.len() == 0 { assert(tail =~= r); flushes(st, num(s, a, 0), r); }
    else {
        assert(tail =~= seq!['.'] + (y + r)); goes(st, '.', y + r);
        assert(y + r =~= seq![y[0]] + (y.skip(1) + r)); assert(dig(y[0])); goes(ASt::FracBegin(s, a), y[0], y.skip(1) + r);
        assert forall|i: int| 0 <= i < y.skip(1).len() implies dig(#[trigger] y.skip(1)[i]) by { assert(y.skip(1)[i] == y[i + 1]); }
        lx_frac(s, a * 10 + (y[0] as int - '0' as int), -1, y.skip(1), r);
        flushes(ASt::Frac(s, cont(a, y), -(y.len() as int)), num(s, cont(a, y), -(y.len() as int)), r);
    }
    one1(ASt::Init, t, PTok::Num(f), r);
}
// ---------------------------------------------------------------------------------------------
// values: finite numbers, no bigints, no surrogates
// ---------------------------------------------------------------------------------------------
pub open spec fn clean(b: u64) -> bool decreases rank(b) {
    &&& match node(b) { Node::Num(f) => finite(f), Node::Str(s) => bmp(s), Node::Big(_) => false, Node::Obj(o) => forall|i: int| 0 <= i < o.len() ==> bmp((#[trigger] o[i]).0), _ => true }
    &&& forall|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) ==> clean(kids(b)[i])
}
pub open spec fn num_of(b: u64) -> f64 { node(b)->Num_0 }
// the tokens of b
pub open spec fn joint(s: Seq<Seq<PTok>>) -> Seq<PTok> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { s[0] + seq![PTok::Op(',')] + joint(s.skip(1)) } }
pub open spec fn pt(b: u64, refs: Refs) -> Seq<PTok> decreases rank(b), 2nat { if compound(b) && refs.dom().contains(b) { seq![PTok::Id(ref_text(refs[b]))] } else { ptb(b, refs) } }
pub open spec fn ptb(b: u64, refs: Refs) -> Seq<PTok> decreases rank(b), 1nat {
    match node(b) {
        Node::Null => seq![PTok::Id("null"@)],
        Node::Bool(x) => seq![PTok::Id(if x { "true"@ } else { "false"@ })],
        Node::Num(_) => seq![PTok::Num(num_of(b))],
        Node::Str(s) => seq![PTok::Str(uni(s))],
        Node::Big(_) => Seq::empty(),
        Node::Arr(_) => seq![PTok::Op('[')] + joint(pti(b, refs)) + seq![PTok::Op(']')],
        Node::Obj(_) => seq![PTok::Op('{')] + joint(pti(b, refs)) + seq![PTok::Op('}')],
    }
}
pub open spec fn pti(b: u64, refs: Refs) -> Seq<Seq<PTok>> decreases rank(b), 0nat {
    match node(b) {
        Node::Arr(a) => Seq::new(a.len(), |i: int| if rank(a[i]) < rank(b) { pt(a[i], refs) } else { Seq::empty() }),
        Node::Obj(o) => Seq::new(o.len(), |i: int| if rank(o[i].1) < rank(b) { pmem(o[i].0, pt(o[i].1, refs)) } else { Seq::empty() }),
        _ => Seq::empty(),
    }
}
pub open spec fn pmem(k: Seq<u16>, v: Seq<PTok>) -> Seq<PTok> { seq![PTok::Str(uni(k)), PTok::Op(':')] + v }
pub proof fn joined_front(s: Seq<Seq<char>>) requires s.len() >= 2 ensures joined(s) == s[0] + seq![','] + joined(s.skip(1)) decreases s.len()
{
    let d = s.drop_last();
    if s.len() == 2 { assert(joined(d) == s[0]); assert(joined(s.skip(1)) == s.last()); }
    else { joined_front(d); assert(d.skip(1) =~= s.skip(1).drop_last()); assert(s.skip(1).last() == s.last()); assert(joined(s.skip(1)) == joined(d.skip(1)) + seq![','] + s.last()); assert(joined(s) =~= s[0] + seq![','] + joined(s.skip(1))); }
}
pub proof fn lits2() ensures "null"@ == seq!['n', 'u', 'l', 'l'], "true"@ == seq!['t', 'r', 'u', 'e'], "false"@ == seq!['f', 'a', 'l', 's', 'e'], "_"@ == seq!['_']
{ reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("_"); assert("null"@ =~= seq!['n', 'u', 'l', 'l']); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']); assert("_"@ =~= seq!['_']); }
pub proof fn ref_id(n: nat) ensures ref_text(n).len() > 0, ref_text(n)[0] == '_', id1s(ref_text(n)) { ax_nat(n); lits2(); let t = ref_text(n); assert forall|i: int| 0 <= i < t.len() implies is_id1(#[trigger] t[i]) by { if i > 0 { assert(t[i] == nat_text(n)[i - 1]); } } }
pub proof fn lx_txt(b: u64, refs: Refs, r: Seq<char>) requires clean(b), okr(r) ensures lx(ASt::Init, txt(b, refs) + r, pt(b, refs), r) decreases rank(b), 3nat, 0nat
{ if compound(b) && refs.dom().contains(b) { ref_id(refs[b]); lx_id(ref_text(refs[b]), r); } else { lx_body(b, refs, r); } }
pub proof fn lx_body(b: u64, refs: Refs, r: Seq<char>) requires clean(b), okr(r) ensures lx(ASt::Init, body(b, refs) + r, ptb(b, refs), r) decreases rank(b), 2nat, 0nat
{
    lits2();
    match node(b) {
        Node::Null => { lx_id("null"@, r); }
        Node::Bool(x) => { lx_id(if x { "true"@ } else { "false"@ }, r); }
        Node::Num(_) => { lx_num(num_of(b), r); }
        Node::Str(s) => { lx_str(s, r); }
        Node::Big(_) => {}
        Node::Arr(_) => { lx_list(b, refs, '[', ']', r); }
        Node::Obj(_) => { lx_list(b, refs, '{', '}', r); }
    }
}
pub proof fn lx_list(b: u64, refs: Refs, o: char, e: char, r: Seq<char>)
    requires clean(b), okr(r), compound(b), is_op(o), is_op(e), e != '.'
    ensures lx(ASt::Init, list(o, e, items(b, refs)) + r, seq![PTok::Op(o)] + joint(pti(b, refs)) + seq![PTok::Op(e)], r) decreases rank(b), 1nat, 0nat
{
    let j = joined(items(b, refs)); let r2 = seq![e] + r;
    assert(list(o, e, items(b, refs)) + r =~= seq![o] + (j + r2));
    lx_op(o, j + r2); lx_op(e, r); 
    if items(b, refs).len() > 0 { lx_items(b, refs, 0, r2); assert(items(b, refs).skip(0) =~= items(b, refs)); assert(pti(b, refs).skip(0) =~= pti(b, refs)); }
    else { assert(j + r2 =~= r2); assert(avs(Seq::<PTok>::empty()) + lex(ASt::Init, r2) =~= lex(ASt::Init, r2)); }
    lx_add(seq![o] + (j + r2), seq![PTok::Op(o)], j + r2, joint(pti(b, refs)), r2);
    lx_add(seq![o] + (j + r2), seq![PTok::Op(o)] + joint(pti(b, refs)), r2, seq![PTok::Op(e)], r);
}
pub proof fn lx_item(b: u64, refs: Refs, i: int, r: Seq<char>) requires clean(b), okr(r), 0 <= i < items(b, refs).len() ensures lx(ASt::Init, items(b, refs)[i] + r, pti(b, refs)[i], r) decreases rank(b), 0nat, 0nat
{
    broadcast use ax_rank;
    assert(rank(kids(b)[i]) < rank(b));
    let k = kids(b)[i]; lx_txt(k, refs, r);
    if node(b) is Obj {
        let o = node(b)->Obj_0; assert(k == o[i].1); let v = txt(k, refs) + r; let c = seq![':'] + v;
        lx_str(o[i].0, c); lx_op(':', v);
        assert(items(b, refs)[i] + r =~= jstr(o[i].0) + c);
        lx_add(jstr(o[i].0) + c, seq![PTok::Str(uni(o[i].0))], c, seq![PTok::Op(':')], v);
        lx_add(jstr(o[i].0) + c, seq![PTok::Str(uni(o[i].0))] + seq![PTok::Op(':')], v, pt(k, refs), r);
        assert(seq![PTok::Str(uni(o[i].0))] + seq![PTok::Op(':')] + pt(k, refs) =~= pti(b, refs)[i]);
    }
}
pub proof fn lx_items(b: u64, refs: Refs, i: int, r: Seq<char>) requires clean(b), okr(r), 0 <= i < items(b, refs).len()
    ensures lx(ASt::Init, joined(items(b, refs).skip(i)) + r, joint(pti(b, refs).skip(i)), r) decreases rank(b), 0nat, items(b, refs).len() - i + 1
{
    let (s, p) = (items(b, refs).skip(i), pti(b, refs).skip(i));
    assert(s.len() == p.len()); assert(s[0] == items(b, refs)[i] && p[0] == pti(b, refs)[i]);
    if s.len() == 1 { lx_item(b, refs, i, r); }
    else {
        joined_front(s); assert(s.skip(1) =~= items(b, refs).skip(i + 1)); assert(p.skip(1) =~= pti(b, refs).skip(i + 1));
        let j = joined(s.skip(1)) + r; let c = seq![','] + j;
        lx_item(b, refs, i, c); lx_op(',', j); lx_items(b, refs, i + 1, r);
        assert(joined(s) + r =~= s[0] + c);
        lx_add(s[0] + c, p[0], c, seq![PTok::Op(',')], j);
        lx_add(s[0] + c, p[0] + seq![PTok::Op(',')], j, joint(p.skip(1)), r);
    }
}
// ---------------------------------------------------------------------------------------------
// the value that is read: that of b, the members of an object as a map by name
// ---------------------------------------------------------------------------------------------
pub open spec fn val(b: u64) -> AVal decreases rank(b), 1nat, 0nat {
    match node(b) {
        Node::Null => AVal::Null, Node::Bool(x) => AVal::Bool(x), Node::Num(f) => AVal::Num(f), Node::Str(s) => AVal::Str(s), Node::Big(n) => AVal::Big(n),
        Node::Arr(a) => AVal::Arr(vitems(b)),
        Node::Obj(o) => obj(mems(b, o.len())),
    }
}
pub open spec fn vitems(b: u64) -> Seq<AVal> decreases rank(b), 0nat, 0nat { Seq::new(kids(b).len(), |i: int| if rank(kids(b)[i]) < rank(b) { val(kids(b)[i]) } else { AVal::Null }) }
pub open spec fn mems(b: u64, n: nat) -> Vals decreases rank(b), 0nat, n {
    if n == 0 || !(node(b) is Obj) || n > node(b)->Obj_0.len() { Map::empty() } else { let (k, x) = node(b)->Obj_0[n - 1]; mems(b, (n - 1) as nat).insert(uni(k), if rank(x) < rank(b) { val(x) } else { AVal::Null }) }
}
// An object whose names ascend, as the parser makes them, comes back member by member. `same` is the value as it stands.
pub open spec fn same(b: u64) -> AVal decreases rank(b), 1nat {
    match node(b) {
        Node::Null => AVal::Null, Node::Bool(x) => AVal::Bool(x), Node::Num(f) => AVal::Num(f), Node::Str(s) => AVal::Str(s), Node::Big(n) => AVal::Big(n),
        Node::Arr(a) => AVal::Arr(sames(b)),
        Node::Obj(o) => AVal::Obj(Seq::new(o.len(), |i: int| (o[i].0, sames(b)[i]))),
    }
}
pub open spec fn sames(b: u64) -> Seq<AVal> decreases rank(b), 0nat { Seq::new(kids(b).len(), |i: int| if rank(kids(b)[i]) < rank(b) { same(kids(b)[i]) } else { AVal::Null }) }
pub open spec fn canon(b: u64) -> bool decreases rank(b) {
    &&& node(b) is Obj ==> ascending(mlist(b))
    &&& forall|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) ==> canon(kids(b)[i])
}
pub open spec fn mlist(b: u64) -> Seq<(Seq<char>, AVal)> { let o = node(b)->Obj_0; Seq::new(o.len(), |i: int| (uni(o[i].0), if rank(o[i].1) < rank(b) { val(o[i].1) } else { AVal::Null })) }
pub proof fn mems_list(b: u64, n: nat) requires node(b) is Obj, n <= node(b)->Obj_0.len(), ascending(mlist(b)) ensures entries(mems(b, n), mlist(b).take(n as int)) decreases n
{
    let (l, m, s) = (mlist(b), mems(b, n), mlist(b).take(n as int));
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies tlt(#[trigger] s[i].0, #[trigger] s[j].0) by { assert(s[i] == l[i] && s[j] == l[j]); }
    if n > 0 {
        mems_list(b, (n - 1) as nat); let (m0, s0) = (mems(b, (n - 1) as nat), l.take(n - 1)); let k0 = uni(node(b)->Obj_0[n - 1].0);
        assert(s[n - 1] == l[n - 1]); assert(m == m0.insert(k0, l[n - 1].1)); assert(l[n - 1].0 == k0);
        assert forall|i: int| 0 <= i < s.len() implies m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 by {
            if i < n - 1 { assert(s[i] == l[i] && s0[i] == l[i]); assert(m0.dom().contains(s0[i].0)); tlt_one_way(l[i].0, l[n - 1].0); }
        }
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies 0 <= at(s, k) < s.len() && s[at(s, k)].0 == k by {
            if k != k0 { assert(m0.dom().contains(k)); let i = at(s0, k); assert(s0[i].0 == k); assert(s[i].0 == k); } else { assert(s[n - 1].0 == k); }
        }
    }
}
pub proof fn val_is_same(b: u64) requires clean(b), canon(b) ensures val(b) == same(b) decreases rank(b)
{
    assert forall|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) implies val(kids(b)[i]) == same(kids(b)[i]) by { val_is_same(kids(b)[i]); }
    match node(b) {
        Node::Arr(a) => { assert(vitems(b) =~= sames(b)); }
        Node::Obj(o) => {
            mems_list(b, o.len()); assert(mlist(b).take(o.len() as int) =~= mlist(b)); sorted_is(mems(b, o.len()), mlist(b));
            let r = mlist(b).map_values(|p: (Seq<char>, AVal)| (u16s(p.0), p.1));
            assert forall|i: int| 0 <= i < o.len() implies #[trigger] r[i] == (o[i].0, sames(b)[i]) by { assert(bmp(o[i].0)); ax_u16s(o[i].0); assert(kids(b)[i] == o[i].1); }
            assert(r =~= Seq::new(o.len(), |i: int| (o[i].0, sames(b)[i])));
            assert(val(b) == AVal::Obj(r));
        }
        _ => {}
    }
}
pub open spec fn kok(ks: Vals, refs: Refs, x: u64) -> bool { ks.dom().contains(ref_text(refs[x])) && ks[ref_text(refs[x])] == val(x) }
// every constant in b is defined; `t`: b itself too
pub open spec fn defd(ks: Vals, refs: Refs, b: u64, t: bool) -> bool { forall|x: u64| #[trigger] reach(b, x) && refs.dom().contains(x) && (t || x != b) ==> kok(ks, refs, x) }
pub proof fn reach_rank(b: u64, c: u64) requires reach(b, c) ensures b == c || rank(c) < rank(b) decreases rank(b)
{ broadcast use ax_rank; if b != c { let i = choose|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) && reach(kids(b)[i], c); reach_rank(kids(b)[i], c); } }
pub proof fn defd_kid(ks: Vals, refs: Refs, b: u64, i: int) requires defd(ks, refs, b, false), 0 <= i < kids(b).len() ensures defd(ks, refs, kids(b)[i], true), rank(kids(b)[i]) < rank(b)
{ broadcast use ax_rank; let k = kids(b)[i]; assert(rank(k) < rank(b)); assert forall|x: u64| #[trigger] reach(k, x) && refs.dom().contains(x) implies kok(ks, refs, x) by { reach_rank(k, x); assert(reach(b, x)); } }
pub open spec fn got(c: Vals, d: DataType, v: AVal, r: Seq<PTok>) -> GC { (c, GR::Got(d, v, r)) }
pub proof fn kw() ensures "require"@.len() == 7, "require"@[0] == 'r' { reveal_strlit("require"); }
pub proof fn g_txt(b: u64, refs: Refs, e: Env, c: Vals, w: bool, d: DataType, ks: Vals, r: Seq<PTok>) requires clean(b), defd(ks, refs, b, true)
    ensures gval(e, c, w, d, ks, pt(b, refs) + r) == got(c, d, val(b), r), pt(b, refs).len() > 0, !(pt(b, refs)[0] is Nl), pt(b, refs)[0] != PTok::Op(']') decreases rank(b), 3nat, 0nat
{
    if compound(b) && refs.dom().contains(b) {
        assert(reach(b, b)); ref_id(refs[b]); lits2(); kw(); let t = pt(b, refs) + r; assert(t.skip(1) =~= r); assert(t[0] == PTok::Id(ref_text(refs[b])));
        assert(kok(ks, refs, b));
    } else { g_body(b, refs, e, c, w, d, ks, r); }
}
pub proof fn g_body(b: u64, refs: Refs, e: Env, c: Vals, w: bool, d: DataType, ks: Vals, r: Seq<PTok>) requires clean(b), defd(ks, refs, b, false)
    ensures gval(e, c, w, d, ks, ptb(b, refs) + r) == got(c, d, val(b), r), ptb(b, refs).len() > 0, !(ptb(b, refs)[0] is Nl), ptb(b, refs)[0] != PTok::Op(']') decreases rank(b), 2nat, 0nat
{
    lits2(); kw();
    let t = ptb(b, refs) + r; let p = pti(b, refs);
    match node(b) {
        Node::Null => { assert(t.skip(1) =~= r); assert(gval(e, c, w, d, ks, t) == got(c, d, val(b), r)); }
        Node::Bool(x) => { assert(t.skip(1) =~= r); assert(t[0] == PTok::Id(if x { "true"@ } else { "false"@ })); assert("true"@ != "null"@ && "false"@ != "null"@ && "false"@ != "true"@) by { assert("true"@[0] == 't'); assert("null"@[0] == 'n'); assert("false"@[0] == 'f'); } assert("require"@ != "true"@ && "require"@ != "false"@); }
        Node::Num(f) => { assert(t.skip(1) =~= r); assert(t[0] == PTok::Num(num_of(b))); assert(gval(e, c, w, d, ks, t) == got(c, d, val(b), r)); }
        Node::Str(s) => { assert(t.skip(1) =~= r); ax_u16s(s); assert(t[0] == PTok::Str(uni(s))); assert(gval(e, c, w, d, ks, t) == got(c, d, val(b), r)); }
        Node::Big(_) => {}
        Node::Arr(a) => {
            let q = seq![PTok::Op(']')] + r; let u = joint(p) + q;
            assert(t =~= seq![PTok::Op('[')] + u); assert(t.skip(1) =~= u);
            if a.len() == 0 { assert(u =~= q); assert(q.skip(1) =~= r); assert(vitems(b) =~= Seq::empty()); } else { assert(p.skip(0) =~= p); assert(vitems(b).take(0) =~= Seq::empty()); g_arr(b, refs, 0, e, c, w, d, ks, r); }
            assert(garr(e, c, w, d, ks, Seq::<AVal>::empty(), u) == got(c, d, AVal::Arr(vitems(b)), r)); assert(t[0] == PTok::Op('[')); assert(gval(e, c, w, d, ks, t) == got(c, d, val(b), r));
        }
        Node::Obj(o) => {
            let q = seq![PTok::Op('}')] + r; let u = joint(p) + q;
            assert(t =~= seq![PTok::Op('{')] + u); assert(t.skip(1) =~= u);
            if o.len() == 0 { assert(u =~= q); assert(q.skip(1) =~= r); } else { assert(p.skip(0) =~= p); g_obj(b, refs, 0, e, c, w, d, ks, r); }
            assert(mems(b, 0) == Map::<Seq<char>, AVal>::empty()); assert(gobj(e, c, w, d, ks, Map::<Seq<char>, AVal>::empty(), u) == got(c, d, val(b), r)); assert(t[0] == PTok::Op('{')); assert(gval(e, c, w, d, ks, t) == got(c, d, val(b), r));
        }
    }
}
pub proof fn g_arr(b: u64, refs: Refs, i: nat, e: Env, c: Vals, w: bool, d: DataType, ks: Vals, r: Seq<PTok>)
    requires clean(b), defd(ks, refs, b, false), node(b) is Arr, i < kids(b).len()
    ensures garr(e, c, w, d, ks, vitems(b).take(i as int), joint(pti(b, refs).skip(i as int)) + (seq![PTok::Op(']')] + r)) == got(c, d, AVal::Arr(vitems(b)), r) decreases rank(b), 1nat, kids(b).len() - i
{
    broadcast use ax_rank;
    let p = pti(b, refs).skip(i as int); let q = seq![PTok::Op(']')] + r; let t = joint(p) + q; let k = kids(b)[i as int];
    defd_kid(ks, refs, b, i as int); assert(p[0] == pt(k, refs)); assert(clean(k));
    let a1 = vitems(b).take(i as int); assert(a1.push(val(k)) =~= vitems(b).take(i as int + 1));
    if p.len() == 1 { g_txt(k, refs, e, c, w, d, ks, q); assert(t =~= pt(k, refs) + q); assert(q.skip(1) =~= r); assert(vitems(b).take(i as int + 1) =~= vitems(b)); assert(q[0] == PTok::Op(']')); assert(garr2(e, c, w, d, ks, a1.push(val(k)), q) == got(c, d, AVal::Arr(vitems(b)), r)); assert(t.len() > q.len()); }
    else {
        let u = joint(p.skip(1)) + q; let x = seq![PTok::Op(',')] + u;
        assert(t =~= pt(k, refs) + x); g_txt(k, refs, e, c, w, d, ks, x); assert(x.skip(1) =~= u); assert(x[0] == PTok::Op(','));
        assert(p.skip(1) =~= pti(b, refs).skip(i as int + 1)); g_arr(b, refs, (i + 1) as nat, e, c, w, d, ks, r); assert(garr2(e, c, w, d, ks, a1.push(val(k)), x) == got(c, d, AVal::Arr(vitems(b)), r)); assert(t.len() > x.len());
    }
    assert(t[0] == pt(k, refs)[0]);
}
pub proof fn g_obj(b: u64, refs: Refs, i: nat, e: Env, c: Vals, w: bool, d: DataType, ks: Vals, r: Seq<PTok>)
    requires clean(b), defd(ks, refs, b, false), node(b) is Obj, i < kids(b).len()
    ensures gobj(e, c, w, d, ks, mems(b, i), joint(pti(b, refs).skip(i as int)) + (seq![PTok::Op('}')] + r)) == got(c, d, val(b), r) decreases rank(b), 1nat, kids(b).len() - i
{
    broadcast use ax_rank;
    let o = node(b)->Obj_0; let (n, k) = o[i as int]; assert(k == kids(b)[i as int]);
    let p = pti(b, refs).skip(i as int); let q = seq![PTok::Op('}')] + r; let t = joint(p) + q;
    defd_kid(ks, refs, b, i as int); assert(p[0] == pmem(n, pt(k, refs))); assert(clean(k));
    let m1 = mems(b, i); assert(mems(b, (i + 1) as nat) == m1.insert(uni(n), val(k)));
    let x = if p.len() == 1 { q } else { seq![PTok::Op(',')] + (joint(p.skip(1)) + q) };
    assert(t =~= seq![PTok::Str(uni(n))] + (seq![PTok::Op(':')] + (pt(k, refs) + x)));
    let y = seq![PTok::Op(':')] + (pt(k, refs) + x); assert(t.skip(1) =~= y); assert(y.skip(1) =~= pt(k, refs) + x);
    g_txt(k, refs, e, c, w, d, ks, x);
    if p.len() == 1 { assert(x.skip(1) =~= r); assert(x[0] == PTok::Op('}')); assert(gobj2(e, c, w, d, ks, mems(b, (i + 1) as nat), x) == got(c, d, val(b), r)); }
    else { let u = joint(p.skip(1)) + q; assert(x.skip(1) =~= u); assert(x[0] == PTok::Op(',')); assert(p.skip(1) =~= pti(b, refs).skip(i as int + 1)); g_obj(b, refs, (i + 1) as nat, e, c, w, d, ks, r); assert(gobj2(e, c, w, d, ks, mems(b, (i + 1) as nat), x) == got(c, d, val(b), r)); }
    assert(t[0] == PTok::Str(uni(n))); assert(y[0] == PTok::Op(':'));
    assert(gkey(e, c, w, d, ks, m1, uni(n), y) == got(c, d, val(b), r));
}
// ---------------------------------------------------------------------------------------------
// JSON: whatever tokens p the text of b has, they are read as the value of b
// ---------------------------------------------------------------------------------------------
pub proof fn json_reads_back(b: u64, p: Seq<PTok>, e: Env, c: Vals)
    requires clean(b), ptm(p, lex(ASt::Init, ser(b)))
    ensures gdoc(e, c, DataType::Json, Map::empty(), true, p) == (c, Doc::Ok((DataType::Json, val(b)))), canon(b) ==> val(b) == same(b)
{
    if canon(b) { val_is_same(b); }
    let refs: Refs = Map::empty(); let n = Seq::<char>::empty();
    lx_txt(b, refs, n); assert(ser(b) + n =~= ser(b)); assert(avs(pt(b, refs)) + lex(ASt::Init, n) =~= avs(pt(b, refs))); only(p, pt(b, refs));
    let m = Seq::<PTok>::empty(); g_txt(b, refs, e, c, false, DataType::Json, Map::empty(), m); assert(p + m =~= p);
    first(b, refs);
}
// what a value starts with is no statement
pub proof fn first(b: u64, refs: Refs) requires clean(b) ensures pt(b, refs).len() > 0, ({ let t = pt(b, refs)[0]; !(t is Nl) && !op(t, ';') && !id(t, "const"@) && !id(t, "export"@) && !id(t, "module"@) && !id(t, "import"@) })
{
    lits2(); reveal_strlit("const"); reveal_strlit("export"); reveal_strlit("module"); reveal_strlit("import");
    if compound(b) && refs.dom().contains(b) { ref_id(refs[b]); }
    else { match node(b) { Node::Null => { assert(pt(b, refs) == seq![PTok::Id("null"@)]); } Node::Bool(x) => {} Node::Num(_) => {} Node::Str(s) => {} Node::Big(_) => {} Node::Arr(_) => { let q = seq![PTok::Op('[')] + joint(pti(b, refs)) + seq![PTok::Op(']')]; assert(pt(b, refs) == q); assert(q[0] == PTok::Op('[')); } Node::Obj(_) => { let q = seq![PTok::Op('{')] + joint(pti(b, refs)) + seq![PTok::Op('}')]; assert(pt(b, refs) == q); assert(q[0] == PTok::Op('{')); } } }
}
// ---------------------------------------------------------------------------------------------
// DJS: definitions, then the value
// ---------------------------------------------------------------------------------------------
pub open spec fn defi(s: Seq<u64>, i: int) -> Seq<char> { def(i as nat, body(s[i], index(s))) }
pub open spec fn pdef(s: Seq<u64>, i: int) -> Seq<PTok> { seq![PTok::Id("const"@), PTok::Id(ref_text(i as nat)), PTok::Op('=')] + ptb(s[i], index(s)) + seq![PTok::Op(';')] }
// the definitions from the i-th on, then the end t
pub open spec fn from(s: Seq<u64>, i: nat, t: Seq<char>) -> Seq<char> decreases s.len() - i { if i >= s.len() { t } else { defi(s, i as int) + from(s, i + 1, t) } }
pub open spec fn pfrom(s: Seq<u64>, i: nat, t: Seq<PTok>) -> Seq<PTok> decreases s.len() - i { if i >= s.len() { t } else { pdef(s, i as int) + pfrom(s, i + 1, t) } }
pub proof fn defs_from_front(s: Seq<u64>, i: nat, t: Seq<char>) requires i <= s.len() ensures defs(s, i) + from(s, i, t) == defs(s, s.len()) + t decreases s.len() - i
{ if i < s.len() { defs_from_front(s, i + 1, t); assert(defs(s, i + 1) + from(s, i + 1, t) =~= defs(s, i) + (defi(s, i as int) + from(s, i + 1, t))); } }
pub open spec fn pstart(cjs: bool) -> Seq<PTok> { if cjs { seq![PTok::Id("module"@), PTok::Op('.'), PTok::Id("exports"@), PTok::Op('=')] } else { seq![PTok::Id("export"@), PTok::Id("default"@)] } }
pub proof fn lits3() ensures "const _"@ == "const"@ + seq![' '] + "_"@, "const"@ == seq!['c', 'o', 'n', 's', 't'], "module.exports="@ == "module"@ + seq!['.'] + "exports"@ + seq!['='], "export default "@ == "export"@ + seq![' '] + "default"@ + seq![' '],
    id1s("const"@), id1s("module"@), id1s("exports"@), id1s("export"@), id1s("default"@), is_id0("const"@[0]), is_id0("module"@[0]), is_id0("exports"@[0]), is_id0("export"@[0]), is_id0("default"@[0]),
    "const"@.len() > 0, "module"@.len() > 0, "exports"@.len() > 0, "export"@.len() > 0, "default"@.len() > 0,
    "const"@[0] == 'c', "module"@[0] == 'm', "export"@[0] == 'e', "import"@[0] == 'i', "module"@ != "export"@, "module"@ != "const"@, "export"@ != "const"@
{
    lits2(); reveal_strlit("const _"); reveal_strlit("const"); reveal_strlit("module.exports="); reveal_strlit("module"); reveal_strlit("exports"); reveal_strlit("export default "); reveal_strlit("export"); reveal_strlit("default"); reveal_strlit("import");
    assert("const"@ =~= seq!['c', 'o', 'n', 's', 't']);
    assert("const _"@ =~= "const"@ + seq![' '] + "_"@); assert("module.exports="@ =~= "module"@ + seq!['.'] + "exports"@ + seq!['=']); assert("export default "@ =~= "export"@ + seq![' '] + "default"@ + seq![' ']);
    assert("module"@[0] == 'm'); assert("export"@[0] == 'e'); assert("const"@[0] == 'c');
}
pub proof fn lx_sp(r: Seq<char>) ensures lex(ASt::Init, seq![' '] + r) == lex(ASt::Init, r) { goes(ASt::Init, ' ', r); }
pub proof fn lx_def(s: Seq<u64>, i: int, r: Seq<char>) requires 0 <= i < s.len(), clean(s[i]) ensures lx(ASt::Init, defi(s, i) + r, pdef(s, i), r)
{
    lits3(); let n = i as nat; ref_id(n); let x = index(s);
    let k = "const"@; let v = ref_text(n); let b = body(s[i], x);
    let r4 = seq![';'] + r; let r3 = b + r4; let r2 = seq!['='] + r3; let r1 = v + r2; let t = k + (seq![' '] + r1);
    assert(defi(s, i) + r =~= t);
    lx_id(k, seq![' '] + r1); lx_sp(r1); assert(lx(ASt::Init, t, seq![PTok::Id(k)], r1));
    lx_id(v, r2); lx_op('=', r3); lx_body(s[i], x, r4); lx_op(';', r);
    lx_add(t, seq![PTok::Id(k)], r1, seq![PTok::Id(v)], r2);
    lx_add(t, seq![PTok::Id(k)] + seq![PTok::Id(v)], r2, seq![PTok::Op('=')], r3);
    let p = seq![PTok::Id(k)] + seq![PTok::Id(v)] + seq![PTok::Op('=')];
    lx_add(t, p, r3, ptb(s[i], x), r4); lx_add(t, p + ptb(s[i], x), r4, seq![PTok::Op(';')], r);
    assert(p + ptb(s[i], x) + seq![PTok::Op(';')] =~= pdef(s, i));
}
pub proof fn lx_defs(s: Seq<u64>, i: nat, t: Seq<char>, q: Seq<PTok>, r: Seq<char>) requires i <= s.len(), forall|j: int| 0 <= j < s.len() ==> clean(#[trigger] s[j]), lx(ASt::Init, t, q, r) ensures lx(ASt::Init, from(s, i, t), pfrom(s, i, q), r) decreases s.len() - i
{ if i < s.len() { lx_def(s, i as int, from(s, i + 1, t)); lx_defs(s, i + 1, t, q, r); lx_add(from(s, i, t), pdef(s, i as int), from(s, i + 1, t), pfrom(s, i + 1, q), r); } }
pub proof fn lx_start(cjs: bool, r: Seq<char>) ensures lx(ASt::Init, start_text(cjs) + r, pstart(cjs), r)
{
    lits3(); let t = start_text(cjs) + r;
    if cjs {
        let (m, x) = ("module"@, "exports"@); let r3 = seq!['='] + r; let r2 = x + r3; let r1 = seq!['.'] + r2;
        assert(t =~= m + r1); lx_id(m, r1); lx_op('.', r2); lx_id(x, r3); lx_op('=', r);
        lx_add(t, seq![PTok::Id(m)], r1, seq![PTok::Op('.')], r2); lx_add(t, seq![PTok::Id(m)] + seq![PTok::Op('.')], r2, seq![PTok::Id(x)], r3);
        lx_add(t, seq![PTok::Id(m)] + seq![PTok::Op('.')] + seq![PTok::Id(x)], r3, seq![PTok::Op('=')], r);
        assert(seq![PTok::Id(m)] + seq![PTok::Op('.')] + seq![PTok::Id(x)] + seq![PTok::Op('=')] =~= pstart(cjs));
    } else {
        let (m, x) = ("export"@, "default"@); let sp = seq![' ']; let r1 = x + (sp + r);
        assert(t =~= m + (sp + r1)); lx_id(m, sp + r1); lx_sp(r1); lx_id(x, sp + r); lx_sp(r);
        assert(lx(ASt::Init, t, seq![PTok::Id(m)], r1)); assert(lx(ASt::Init, r1, seq![PTok::Id(x)], r));
        lx_add(t, seq![PTok::Id(m)], r1, seq![PTok::Id(x)], r); assert(seq![PTok::Id(m)] + seq![PTok::Id(x)] =~= pstart(cjs));
    }
}
// the constants before the i-th are defined
pub open spec fn upto(s: Seq<u64>, ks: Vals, i: nat) -> bool { forall|j: nat| j < i ==> ks.dom().contains(#[trigger] ref_text(j)) && ks[ref_text(j)] == val(s[j as int]) }
pub proof fn ref_inj(n: nat, m: nat) requires ref_text(n) == ref_text(m) ensures n == m { lits2(); ax_nat(n); assert(ref_text(n).skip(1) =~= nat_text(n)); assert(ref_text(m).skip(1) =~= nat_text(m)); }
pub proof fn clean_reach(b: u64, c: u64) requires clean(b), reach(b, c) ensures clean(c) decreases rank(b)
{ if b != c { let i = choose|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) && reach(kids(b)[i], c); clean_reach(kids(b)[i], c); } }
pub open spec fn typ(cjs: bool) -> DataType { if cjs { DataType::Cjs } else { DataType::Mjs } }
pub proof fn g_start(b: u64, s: Seq<u64>, cjs: bool, e: Env, c: Vals, d: DataType, ks: Vals)
    requires clean(b), order_of(b, s), d is Json || d is Djs, upto(s, ks, s.len())
    ensures gdoc(e, c, d, ks, true, pstart(cjs) + pt(b, index(s))) == (c, Doc::Ok((typ(cjs), val(b))))
{
    reveal(order_of); lits3();
    let x = index(s); let m = Seq::<PTok>::empty(); let t = pstart(cjs) + pt(b, x); let n = pstart(cjs).len() as int;
    assert forall|y: u64| #[trigger] reach(b, y) && x.dom().contains(y) implies kok(ks, x, y) by { assert(s.to_set().contains(y)); assert(s.contains(y)); let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(x[s[i]] == i); assert(ks.dom().contains(ref_text(i as nat))); }
    g_txt(b, x, e, c, false, typ(cjs), ks, m); assert(pt(b, x) + m =~= pt(b, x)); assert(t.skip(n) =~= pt(b, x));
    assert(t[0] == pstart(cjs)[0] && t[1] == pstart(cjs)[1]); if cjs { assert(t[2] == pstart(cjs)[2] && t[3] == pstart(cjs)[3]); }
}
pub proof fn g_defs(b: u64, s: Seq<u64>, i: nat, cjs: bool, e: Env, c: Vals, d: DataType, ks: Vals)
    requires clean(b), order_of(b, s), i <= s.len(), d is Json || d is Djs, upto(s, ks, i), forall|j: int| 0 <= j < s.len() ==> clean(#[trigger] s[j])
    ensures gdoc(e, c, d, ks, true, pfrom(s, i, pstart(cjs) + pt(b, index(s)))) == (c, Doc::Ok((typ(cjs), val(b)))) decreases s.len() - i
{
    let x = index(s); let end = pstart(cjs) + pt(b, x);
    if i == s.len() { g_start(b, s, cjs, e, c, d, ks); }
    else {
        lits3(); let y = s[i as int]; let r = pfrom(s, i + 1, end); let semi = seq![PTok::Op(';')] + r; let v = ptb(y, x) + semi;
        let u = seq![PTok::Id(ref_text(i)), PTok::Op('=')] + v; let t = pfrom(s, i, end);
        assert(t =~= seq![PTok::Id("const"@)] + u); assert(t.skip(1) =~= u); assert(u.skip(2) =~= v); assert(semi.skip(1) =~= r);
        assert forall|z: u64| #[trigger] reach(y, z) && x.dom().contains(z) && z != y implies kok(ks, x, z) by {
            reveal(order_of); assert(s.to_set().contains(z)); assert(s.contains(z)); let j = choose|j: int| 0 <= j < s.len() && s[j] == z;
            assert(reach(s[i as int], s[j])); assert(j < i); assert(x[s[j]] == j); assert(ks.dom().contains(ref_text(j as nat)));
        }
        g_body(y, x, e, c, true, DataType::Djs, ks, semi);
        let k2 = ks.insert(ref_text(i), val(y));
        assert forall|j: nat| j < i + 1 implies k2.dom().contains(#[trigger] ref_text(j)) && k2[ref_text(j)] == val(s[j as int]) by { if j < i { if ref_text(j) == ref_text(i) { ref_inj(j, i); } } }
        g_defs(b, s, i + 1, cjs, e, c, DataType::Djs, k2);
        assert(gdoc(e, c, DataType::Djs, k2, false, semi) == (c, Doc::Ok((typ(cjs), val(b)))));
        assert(gconst(e, c, DataType::Djs, ks, u) == (c, Doc::Ok((typ(cjs), val(b)))));
        assert(t[0] == PTok::Id("const"@));
    }
}
pub proof fn shared_reach(b: u64, c: u64) requires shared(b, c) ensures reach(b, c) { dfs_reach(b, Set::empty(), c); }
pub proof fn dfs_reach(b: u64, s: Set<u64>, c: u64) requires dfs(b, s).contains(c) ensures reach(b, c) decreases rank(b), kids(b).len() + 1
{ if c != b { assert(dfsk(b, kids(b).len(), s.insert(b)).contains(c)) by { let q = dfsk(b, kids(b).len(), s.insert(b)); let i = choose|i: int| 0 <= i < dfs(b, s).len() && dfs(b, s)[i] == c; assert(dfs(b, s) == seq![b] + q); assert(q[i - 1] == c); } dfsk_reach(b, kids(b).len(), s.insert(b), c); } }
pub proof fn dfsk_reach(b: u64, n: nat, s: Set<u64>, c: u64) requires dfsk(b, n, s).contains(c) ensures reach(b, c) decreases rank(b), n
{
    if n == 0 || n > kids(b).len() {} else {
        let a = dfsk(b, (n - 1) as nat, s); let k = kids(b)[n - 1];
        if a.contains(c) { dfsk_reach(b, (n - 1) as nat, s, c); }
        else { let q = dfs(k, s.union(a.to_set())); assert(rank(k) < rank(b)); let i = choose|i: int| 0 <= i < (a + q).len() && (a + q)[i] == c; assert(i >= a.len()) by { if i < a.len() { assert(a[i] == c); } } assert(q[i - a.len()] == c); dfs_reach(k, s.union(a.to_set()), c); assert(reach(b, c)); }
    }
}
pub proof fn djs_reads_back(b: u64, cjs: bool, t: Seq<char>, p: Seq<PTok>, e: Env, c: Vals)
    requires clean(b), is_djs(b, cjs, t), ptm(p, lex(ASt::Init, t))
    ensures gdoc(e, c, DataType::Json, Map::empty(), true, p) == (c, Doc::Ok((typ(cjs), val(b)))), canon(b) ==> val(b) == same(b)
{
    if canon(b) { val_is_same(b); }
    let s = choose|s: Seq<u64>| order_of(b, s) && t == djs(b, s, cjs);
    assert forall|j: int| 0 <= j < s.len() implies clean(#[trigger] s[j]) by { reveal(order_of); assert(s.contains(s[j])); shared_reach(b, s[j]); clean_reach(b, s[j]); }
    let n = Seq::<char>::empty(); let x = index(s); let v = txt(b, x); let end = start_text(cjs) + v; let pend = pstart(cjs) + pt(b, x);
    assert(v + n =~= v); lx_txt(b, x, n); lx_start(cjs, v); lx_add(end, pstart(cjs), v, pt(b, x), n);
    defs_from_front(s, 0, end); assert(defs(s, 0) + from(s, 0, end) =~= from(s, 0, end)); assert(defs(s, s.len()) + end =~= t);
    lx_defs(s, 0, end, pend, n);
    let q = pfrom(s, 0, pend); assert(avs(q) + lex(ASt::Init, n) =~= avs(q)); only(p, q);
    g_defs(b, s, 0, cjs, e, c, DataType::Json, Map::empty());
}
