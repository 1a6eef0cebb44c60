//! Values as acyclic graphs: `NODE;NODE;..`, the last one is the value. A node is `N<bits>`, `Z`, `T`, `F`,
//! `S<units>`, `B<hex>`, `A<i>,<j>..` or `O<units>:<i>,..`, where i and j are nodes before it.
use crate::par::{units, Mem};
use crate::{hex_to_limbs, limbs_to_hex};
use nanvm_lib::{
    common::default::default,
    js::{
        any::Any,
        any_cast::AnyCast,
        js_bigint::{new_bigint, Sign},
        js_string::new_string,
        new::New,
        null::Null,
        visitor::{to_visitor, Visitor},
    },
    mem::global::{Global, GLOBAL},
    parser::{
        parser::{parse, Context},
        shared::ModuleCache,
    },
    serializer::{to_djs::to_djs, to_json::to_json},
};
use std::{
    cell::RefCell,
    collections::HashMap,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

type A = Any<Global>;
fn hexs(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unit_vec(s: &str) -> Vec<u16> {
    (0..s.len() / 4).map(|i| u16::from_str_radix(&s[4 * i..4 * i + 4], 16).unwrap()).collect()
}
pub fn build(s: &str) -> A {
    let mut v: Vec<A> = Vec::new();
    for n in s.split(';') {
        let (k, r) = n.split_at(1);
        let parts = || r.split(',').filter(|x| !x.is_empty());
        let a = match k {
            "N" => f64::from_bits(u64::from_str_radix(r, 16).unwrap()).move_to_any(),
            "Z" => Null().move_to_any(),
            "T" => true.move_to_any(),
            "F" => false.move_to_any(),
            "S" => GLOBAL.new_js_string(unit_vec(r)),
            "B" => {
                let (neg, l) = hex_to_limbs(r);
                new_bigint(GLOBAL, if neg { Sign::Negative } else { Sign::Positive }, l).to_ref().move_to_any()
            }
            "A" => {
                let items: Vec<A> = parts().map(|i| v[i.parse::<usize>().unwrap()].clone()).collect();
                GLOBAL.new_js_array(items)
            }
            _ => {
                let items: Vec<_> = parts()
                    .map(|p| p.split_once(':').unwrap())
                    .map(|(k, i)| (new_string(GLOBAL, unit_vec(k)).to_ref(), v[i.parse::<usize>().unwrap()].clone()))
                    .collect();
                GLOBAL.new_js_object(items)
            }
        };
        v.push(a);
    }
    v.pop().unwrap()
}
/// the value with its sharing: an array or object met again is `#n`, n counting them in the order they are met
fn graph(a: A, seen: &mut HashMap<A, usize>) -> String {
    if let Some(n) = seen.get(&a) {
        return format!("#{n}");
    }
    let c = a.clone();
    match to_visitor(a) {
        Visitor::Number(n) => format!("N{:016x}", n.to_bits()),
        Visitor::Null => "Z".into(),
        Visitor::Bool(b) => if b { "T" } else { "F" }.into(),
        Visitor::String(s) => format!("S{}", units(s.items())),
        Visitor::Object(o) => {
            let n = seen.len();
            seen.insert(c, n);
            let v: Vec<_> = o.items().iter().map(|(k, v)| format!("{}:{}", units(k.items()), graph(v.clone(), seen))).collect();
            format!("{{{}}}", v.join(","))
        }
        Visitor::Array(o) => {
            let n = seen.len();
            seen.insert(c, n);
            let v: Vec<_> = o.items().iter().map(|v| graph(v.clone(), seen)).collect();
            format!("[{}]", v.join(","))
        }
        Visitor::Bigint(b) => format!("B{}", limbs_to_hex(b.sign() == Sign::Negative, b.items())),
    }
}
fn read(text: &str) -> String {
    let files = [("m".to_string(), text.as_bytes().to_vec())].into_iter().collect();
    let io = Mem { args: Vec::new(), files: Rc::new(RefCell::new(files)), reads: default() };
    let mut mc: ModuleCache<_> = default();
    let mut c = Context::new(GLOBAL, &io, "m".to_string(), &mut mc);
    match parse(&mut c) {
        Ok(r) => graph(r.any, &mut HashMap::new()),
        Err(e) => format!("error:{e:?}"),
    }
}
/// For JSON, DJS and CommonJS: the text and what it reads back as, or `panic`; then the value itself
pub fn serve(a: &[&str]) -> String {
    let v = build(a[0]);
    let one = |f: &dyn Fn() -> Result<String, std::fmt::Error>| match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => format!("{} {}", if t.is_empty() { "-".into() } else { hexs(&t) }, read(&t)),
        Ok(Err(_)) => "error error".into(),
        Err(_) => "panic panic".into(),
    };
    match a.get(1) {
        Some(_) => format!("{} {}", one(&|| to_djs(v.clone(), false)), one(&|| to_djs(v.clone(), true))),
        None => one(&|| to_json(v.clone())),
    }
}
