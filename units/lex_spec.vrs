//@ raw
// ---------------------------------------------------------------------------------------------
// The lexical grammar. Tokens and states as values; one char at a time.
// ---------------------------------------------------------------------------------------------
pub enum ATok { Str(Seq<char>), Num(Sign, int, int), Op(char), Err(ErrorType), Big(int), Id(Seq<char>), Nl }
pub enum ASt {
    Init, Id(Seq<char>), Str(Seq<char>), Esc(Seq<char>), Uni(Seq<char>, int, int), Minus, Zero(Sign),
    Int(Sign, int), FracBegin(Sign, int), Frac(Sign, int, int),
    ExpBegin(Sign, int, int, Sign, int), ExpSign(Sign, int, int, Sign, int), Exp(Sign, int, int, Sign, int),
    Big(int), Nl, CStart, CLine, CMulti, CStar, Op(Seq<char>),
}
pub type ARes = (Seq<ATok>, ASt);
pub open spec fn is_op(c: char) -> bool { c == '{' || c == '}' || c == '[' || c == ']' || c == ':' || c == ',' || c == '=' || c == ';' || c == '(' || c == ')' || c == '.' }
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn is_id0(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' || c == '$' }
pub open spec fn is_id1(c: char) -> bool { is_id0(c) || dig(c) }
pub open spec fn dig(c: char) -> bool { '0' <= c <= '9' }
// what may follow a number
pub open spec fn is_term(c: char) -> bool { is_ws(c) || (is_op(c) && c != '.') || c == '"' || c == '/' }
pub open spec fn hex(c: char) -> int { if dig(c) { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { -1 } }
pub open spec fn scalar(n: int) -> bool { 0 <= n <= 0x10ffff && !(0xd800 <= n <= 0xdfff) }
pub open spec fn cpt(c: char) -> int { c as int }
pub open spec fn chr(n: int) -> char { choose|c: char| #[trigger] cpt(c) == n }
pub open spec fn num(s: Sign, dg: int, e: int) -> ATok { ATok::Num(s, dg, e) }
pub open spec fn one_tok(t: ATok) -> Seq<ATok> { seq![t] }
pub open spec fn go(s: ASt) -> ARes { (Seq::empty(), s) }
// the token ends here and c starts the next one
pub open spec fn flush(t: ATok, c: char) -> ARes { (one_tok(t) + init_step(c).0, init_step(c).1) }
pub open spec fn bad_num(c: char) -> ARes { flush(ATok::Err(ErrorType::InvalidNumber), c) }
pub open spec fn init_step(c: char) -> ARes {
    if is_op(c) { go(ASt::Op(seq![c])) }
    else if '1' <= c <= '9' { go(ASt::Int(Sign::Positive, c as int - '0' as int)) }
    else if c == '"' { go(ASt::Str(Seq::empty())) }
    else if c == '0' { go(ASt::Zero(Sign::Positive)) }
    else if c == '-' { go(ASt::Minus) }
    else if is_id0(c) { go(ASt::Id(seq![c])) }
    else if c == '\n' { go(ASt::Nl) }
    else if c == ' ' || c == '\t' || c == '\r' { go(ASt::Init) }
    else if c == '/' { go(ASt::CStart) }
    else { (one_tok(ATok::Err(ErrorType::UnexpectedCharacter)), ASt::Init) }
}
pub open spec fn str_step(s: Seq<char>, c: char) -> ARes {
    if c == '"' { (one_tok(ATok::Str(s)), ASt::Init) } else if c == '\\' { go(ASt::Esc(s)) } else { go(ASt::Str(s.push(c))) }
}
pub open spec fn step(st: ASt, c: char) -> ARes {
    match st {
        ASt::Init => init_step(c),
        ASt::Id(s) => if is_id1(c) { go(ASt::Id(s.push(c))) } else { flush(ATok::Id(s), c) },
        ASt::Str(s) => str_step(s, c),
        ASt::Esc(s) =>
            if c == '"' || c == '\\' || c == '/' { go(ASt::Str(s.push(c))) }
            else if c == 'b' { go(ASt::Str(s.push('\u{8}'))) }
            else if c == 'f' { go(ASt::Str(s.push('\u{c}'))) }
            else if c == 'n' { go(ASt::Str(s.push('\n'))) }
            else if c == 'r' { go(ASt::Str(s.push('\r'))) }
            else if c == 't' { go(ASt::Str(s.push('\t'))) }
            else if c == 'u' { go(ASt::Uni(s, 0, 0)) }
            else { (one_tok(ATok::Err(ErrorType::UnexpectedCharacter)) + str_step(s, c).0, str_step(s, c).1) },
        ASt::Uni(s, v, n) =>
            if hex(c) < 0 { (one_tok(ATok::Err(ErrorType::InvalidHex)) + str_step(s, c).0, str_step(s, c).1) }
            else if n < 3 { go(ASt::Uni(s, v * 16 + hex(c), n + 1)) }
            else if scalar(v * 16 + hex(c)) { go(ASt::Str(s.push(chr(v * 16 + hex(c))))) }
            else { (one_tok(ATok::Err(ErrorType::InvalidHex)), ASt::Init) },
        ASt::Minus =>
            if c == '0' { go(ASt::Zero(Sign::Negative)) } else if '1' <= c <= '9' { go(ASt::Int(Sign::Negative, c as int - '0' as int)) } else { bad_num(c) },
        ASt::Zero(s) =>
            if c == '.' { go(ASt::FracBegin(s, 0)) }
            else if c == 'e' || c == 'E' { go(ASt::ExpBegin(s, 0, 0, Sign::Positive, 0)) }
            else if c == 'n' { go(ASt::Big(0)) }
            else if is_term(c) { flush(num(s, 0, 0), c) }
            else { bad_num(c) },
        ASt::Int(s, d) =>
            if dig(c) { go(ASt::Int(s, d * 10 + (c as int - '0' as int))) }
            else if c == '.' { go(ASt::FracBegin(s, d)) }
            else if c == 'e' || c == 'E' { go(ASt::ExpBegin(s, d, 0, Sign::Positive, 0)) }
            else if c == 'n' { go(ASt::Big(sg(s, d))) }
            else if is_term(c) { flush(num(s, d, 0), c) }
            else { bad_num(c) },
        ASt::FracBegin(s, d) => if dig(c) { go(ASt::Frac(s, d * 10 + (c as int - '0' as int), -1)) } else { bad_num(c) },
        ASt::Frac(s, d, f) =>
            if dig(c) { go(ASt::Frac(s, d * 10 + (c as int - '0' as int), f - 1)) }
            else if c == 'e' || c == 'E' { go(ASt::ExpBegin(s, d, f, Sign::Positive, 0)) }
            else if is_term(c) { flush(num(s, d, f), c) }
            else { bad_num(c) },
        ASt::ExpBegin(s, d, f, t, e) =>
            if dig(c) { go(ASt::Exp(s, d, f, t, sat63(e * 10 + (c as int - '0' as int)))) }
            else if c == '+' { go(ASt::ExpSign(s, d, f, t, e)) }
            else if c == '-' { go(ASt::ExpSign(s, d, f, Sign::Negative, e)) }
            else { bad_num(c) },
        ASt::ExpSign(s, d, f, t, e) => if dig(c) { go(ASt::Exp(s, d, f, t, sat63(e * 10 + (c as int - '0' as int)))) } else { bad_num(c) },
        ASt::Exp(s, d, f, t, e) =>
            if dig(c) { go(ASt::Exp(s, d, f, t, sat63(e * 10 + (c as int - '0' as int)))) }
            else if is_term(c) { flush(num(s, d, f + sg(t, e)), c) }
            else { bad_num(c) },
        ASt::Big(v) => if is_term(c) { flush(ATok::Big(v), c) } else { bad_num(c) },
        ASt::Nl => if is_ws(c) { go(ASt::Nl) } else { flush(ATok::Nl, c) },
        ASt::CStart => if c == '/' { go(ASt::CLine) } else if c == '*' { go(ASt::CMulti) } else { (one_tok(ATok::Err(ErrorType::UnexpectedCharacter)), ASt::Init) },
        ASt::CLine => if c == '\n' || c == '\r' { go(ASt::Nl) } else { go(ASt::CLine) },
        ASt::CMulti => if c == '*' { go(ASt::CStar) } else { go(ASt::CMulti) },
        ASt::CStar => if c == '/' { go(ASt::Init) } else if c == '*' { go(ASt::CStar) } else { go(ASt::CMulti) },
        ASt::Op(s) => flush(ATok::Op(s[0]), c),
    }
}
// the text ends here
pub open spec fn fin(st: ASt) -> Seq<ATok> {
    match st {
        ASt::Init | ASt::Nl | ASt::CLine => Seq::empty(),
        ASt::Id(s) => one_tok(ATok::Id(s)),
        ASt::Str(_) | ASt::Esc(_) | ASt::Uni(..) => one_tok(ATok::Err(ErrorType::MissingQuotes)),
        ASt::CStart => one_tok(ATok::Err(ErrorType::UnexpectedCharacter)),
        ASt::CMulti | ASt::CStar => one_tok(ATok::Err(ErrorType::CommentClosingExpected)),
        ASt::Zero(s) => one_tok(num(s, 0, 0)),
        ASt::Int(s, d) => one_tok(num(s, d, 0)),
        ASt::Frac(s, d, f) => one_tok(num(s, d, f)),
        ASt::Exp(s, d, f, t, e) => one_tok(num(s, d, f + sg(t, e))),
        ASt::Big(v) => one_tok(ATok::Big(v)),
        ASt::Minus | ASt::FracBegin(..) | ASt::ExpBegin(..) | ASt::ExpSign(..) => one_tok(ATok::Err(ErrorType::InvalidNumber)),
        ASt::Op(s) => one_tok(ATok::Op(s[0])),
    }
}
// the tokens of a text, from state st
pub open spec fn lex(st: ASt, s: Seq<char>) -> Seq<ATok> decreases s.len() {
    if s.len() == 0 { fin(st) } else { step(st, s[0]).0 + lex(step(st, s[0]).1, s.skip(1)) }
}
