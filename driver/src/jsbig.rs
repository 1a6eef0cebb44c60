use crate::{hex_to_limbs, limbs_to_hex};
use nanvm_lib::{
    js::js_bigint::*,
    mem::{global::Global, manager::Manager},
};
use std::cmp::Ordering;
use std::ops::Deref;

type R = JsBigintMutRef<<Global as Manager>::Dealloc>;
const M: Global = Global();

fn mk(s: &str) -> R {
    let (neg, v) = hex_to_limbs(s);
    new_bigint(M, if neg { Sign::Negative } else { Sign::Positive }, v)
}

/// value and whether the representation is the canonical one
pub fn show(r: &JsBigint) -> String {
    let i = r.items();
    let canon = i.last() != Some(&0)
        && i.len() == r.header_len().unsigned_abs()
        && (r.sign() == Sign::Negative) == (r.header_len() < 0);
    format!(
        "{} {}",
        limbs_to_hex(r.sign() == Sign::Negative, i),
        if canon { "canon" } else { "NONCANON" }
    )
}

fn ord(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "lt",
        Ordering::Equal => "eq",
        Ordering::Greater => "gt",
    }
}

pub fn serve(a: &[&str]) -> String {
    let l = mk(a[1]);
    let l = l.deref();
    if a[0] == "pow_u64" || a[0] == "shl_on_u64" || a[0] == "shr_on_u64" {
        let n: u64 = a[2].parse().unwrap();
        return match a[0] {
            "pow_u64" => show(&pow_u64(M, l, n)),
            "shl_on_u64" => show(&shl_on_u64(M, l, n)),
            _ => show(&shr_on_u64(M, l, n)),
        };
    }
    let r = a.get(2).map(|x| mk(x));
    let r = r.as_ref().map(|x| x.deref());
    match a[0] {
        "neg" => show(&negative(M, l)),
        "not" => show(&not(M, l)),
        "is_zero" => format!("{}", is_zero(l)),
        "last_bit" => format!("{}", l.get_last_bit()),
        "from_u64" => {
            let n: u64 = a[2].parse().unwrap();
            show(&from_u64(M, l.sign(), n))
        }
        "zero" => show(&zero(M)),
        "add" => show(&add(M, l, r.unwrap())),
        "sub" => show(&sub(M, l, r.unwrap())),
        "mul" => show(&mul(M, l, r.unwrap())),
        "divmod" => {
            let (q, m) = div_mod(M, l, r.unwrap());
            format!("{} {}", show(&q), show(&m))
        }
        "pow" => show(&pow(M, l, r.unwrap())),
        "and" => show(&and(M, l, r.unwrap())),
        "or" => show(&or(M, l, r.unwrap())),
        "xor" => show(&xor(M, l, r.unwrap())),
        "shl" => show(&shl(M, l, r.unwrap())),
        "shr" => show(&shr(M, l, r.unwrap())),
        "eq" => format!("{}", equals(l, r.unwrap())),
        "cmp" => ord(l.compare(r.unwrap())).to_string(),
        _ => "bad-request".to_string(),
    }
}
