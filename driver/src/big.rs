use crate::{hex_to_limbs, limbs_to_hex};
use nanvm_lib::big_numbers::{
    big_int::{BigInt, Sign},
    big_uint::BigUint,
};
use std::cmp::Ordering;

fn mku(s: &str) -> BigUint {
    BigUint {
        value: hex_to_limbs(s).1,
    }
}
fn mki(s: &str) -> BigInt {
    let (neg, v) = hex_to_limbs(s);
    BigInt {
        sign: if neg { Sign::Negative } else { Sign::Positive },
        value: BigUint { value: v },
    }
}
fn su(x: &BigUint) -> String {
    format!(
        "{} {}",
        limbs_to_hex(false, &x.value),
        if x.value.last() != Some(&0) { "canon" } else { "NONCANON" }
    )
}
fn si(x: &BigInt) -> String {
    let neg = x.sign == Sign::Negative;
    let ok = x.value.value.last() != Some(&0) && !(neg && x.value.value.is_empty());
    format!(
        "{} {}",
        limbs_to_hex(neg, &x.value.value),
        if ok { "canon" } else { "NONCANON" }
    )
}
fn ord(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "lt",
        Ordering::Equal => "eq",
        Ordering::Greater => "gt",
    }
}

pub fn serve_uint(a: &[&str]) -> String {
    if a[0] == "from_u64" {
        return su(&BigUint::from_u64(a[1].parse().unwrap()));
    }
    let l = mku(a[1]);
    if a[0] == "pow_u64" {
        return su(&l.pow_u64(a[2].parse().unwrap()));
    }
    let r = a.get(2).map(|x| mku(x)).unwrap_or_default();
    match a[0] {
        "add" => su(&(&l + &r)),
        "sub" => su(&(&l - &r)),
        "mul" => su(&(&l * &r)),
        "div" => su(&(&l / &r)),
        "divmod" => {
            let (q, m) = l.div_mod(&r);
            format!("{} {}", su(&q), su(&m))
        }
        "pow" => su(&l.pow(&r)),
        "shl" => su(&(&l << &r)),
        "shr" => su(&(&l >> &r)),
        "cmp" => ord(l.cmp(&r)).to_string(),
        "pcmp" => ord(l.partial_cmp(&r).unwrap()).to_string(),
        "is_zero" => format!("{}", l.is_zero()),
        "is_one" => format!("{}", l.is_one()),
        "last_bit" => format!("{}", l.get_last_bit()),
        "to_big_int" => si(&l.to_big_int()),
        "one" => su(&BigUint::one()),
        _ => "bad-request".to_string(),
    }
}

pub fn serve_int(a: &[&str]) -> String {
    match a[0] {
        "from_u64" => return si(&BigInt::from_u64(a[1].parse().unwrap())),
        "from_i64" => return si(&BigInt::from_i64(a[1].parse().unwrap())),
        _ => {}
    }
    let l = mki(a[1]);
    let r = a.get(2).map(|x| mki(x)).unwrap_or_default();
    match a[0] {
        "add" => si(&(&l + &r)),
        "sub" => si(&(l - r)),
        "mul" => si(&(&l * &r)),
        "div" => si(&(&l / &r)),
        "neg" => si(&-l),
        "abs" => si(&l.abs()),
        "divmod" => {
            let (q, m) = l.div_mod(&r);
            format!("{} {}", si(&q), si(&m))
        }
        "cmp" => ord(l.cmp(&r)).to_string(),
        "pcmp" => ord(l.partial_cmp(&r).unwrap()).to_string(),
        "is_zero" => format!("{}", l.is_zero()),
        _ => "bad-request".to_string(),
    }
}
