use crate::{hex_to_limbs, limbs_to_hex};
use nanvm_lib::{
    big_numbers::big_float::BigFloat,
    js::js_bigint::*,
    mem::{global::Global, manager::Manager},
    tokenizer::{bigfloat_to_f64, tokenize, JsonToken},
};
use std::ops::Deref;

const M: Global = Global();
type D = <Global as Manager>::Dealloc;

fn hexs(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}
fn big(b: &JsBigint) -> String {
    let i = b.items();
    let canon = i.last() != Some(&0) && (b.sign() == Sign::Negative) == (b.header_len() < 0);
    format!(
        "{}{}",
        limbs_to_hex(b.sign() == Sign::Negative, i),
        if canon { "" } else { "!" }
    )
}
pub fn show(t: &JsonToken<D>) -> String {
    match t {
        JsonToken::String(s) => format!("S{}", hexs(s)),
        JsonToken::Number(n) => format!("N{:016x}", n.to_bits()),
        JsonToken::ObjectBegin => "O{".into(),
        JsonToken::ObjectEnd => "O}".into(),
        JsonToken::ArrayBegin => "O[".into(),
        JsonToken::ArrayEnd => "O]".into(),
        JsonToken::Colon => "O:".into(),
        JsonToken::Comma => "O,".into(),
        JsonToken::Equals => "O=".into(),
        JsonToken::Dot => "O.".into(),
        JsonToken::ErrorToken(e) => format!("E{e:?}"),
        JsonToken::BigInt(b) => format!("B{}", big(b.deref())),
        JsonToken::Id(s) => format!("I{}", hexs(s)),
        JsonToken::NewLine => "L".into(),
        JsonToken::Semicolon => "O;".into(),
        JsonToken::OpeningParenthesis => "O(".into(),
        JsonToken::ClosingParenthesis => "O)".into(),
    }
}
pub fn serve_tok(a: &[&str]) -> String {
    let v = tokenize(M, text(a[0]));
    v.iter().map(show).collect::<Vec<_>>().join(" ")
}
fn sign(s: &str) -> Sign {
    if s == "-" {
        Sign::Negative
    } else {
        Sign::Positive
    }
}
/// `f64 SIG EXP SIGN`, `bin SIG EXP SIGN PRECISION`, `two SIG EXP SIGN REMAINDER`
pub fn serve_bf(a: &[&str]) -> String {
    let significand = new_bigint(M, Sign::Positive, hex_to_limbs(a[1]).1);
    let exp = a[2].parse().unwrap();
    let sign = sign(a[3]);
    if a[0] == "two" {
        let f = BigFloat::<2, Global> {
            manager: M,
            significand,
            sign,
            exp,
            non_zero_reminder: a[4] == "1",
        };
        return format!("{:016x}", f.to_f64().to_bits());
    }
    let f = BigFloat::<10, Global> {
        manager: M,
        significand,
        sign,
        exp,
        non_zero_reminder: false,
    };
    if a[0] == "f64" {
        return format!("{:016x}", bigfloat_to_f64(f).to_bits());
    }
    let b = f.to_bin(a[4].parse().unwrap());
    format!(
        "{} {} {} {}",
        big(b.significand.deref()),
        b.exp,
        if b.sign == Sign::Negative { "-" } else { "+" },
        b.non_zero_reminder as u8
    )
}
