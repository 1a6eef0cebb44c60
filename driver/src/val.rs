//! One value in an Any: its kind by every test there is, what each try_move gives, equality with a copy and another value.
use crate::ser::build;
use nanvm_lib::{
    common::bit_subset64::BitSubset64,
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{JsArray, JsArrayRef},
        js_bigint::{JsBigint, JsBigintRef},
        js_object::{JsObject, JsObjectRef},
        js_string::{JsString, JsStringRef},
        null::Null,
    },
    mem::global::Global,
};
type A = Any<Global>;

fn taken(a: &A) -> String {
    let c = || a.clone();
    let mut s = Vec::new();
    s.push(match c().try_move::<f64>() { Ok(v) => format!("n{:x}", v.to_bits()), _ => "-".into() });
    s.push(match c().try_move::<bool>() { Ok(v) => format!("b{v}"), _ => "-".into() });
    s.push(match c().try_move::<Null>() { Ok(_) => "z".into(), _ => "-".into() });
    let at = |p: *const u64| format!("@{:x}", p as u64);
    s.push(match c().try_move::<JsStringRef<Global>>() { Ok(v) => format!("s{:?}{}", v.items(), at(&*v as *const _ as _)), _ => "-".into() });
    s.push(match c().try_move::<JsObjectRef<Global>>() { Ok(v) => format!("o{}{}", v.items().len(), at(&*v as *const _ as _)), _ => "-".into() });
    s.push(match c().try_move::<JsArrayRef<Global>>() { Ok(v) => format!("a{}{}", v.items().len(), at(&*v as *const _ as _)), _ => "-".into() });
    s.push(match c().try_move::<JsBigintRef<Global>>() { Ok(v) => format!("i{:?}{}", v.items(), at(&*v as *const _ as _)), _ => "-".into() });
    s.join(",").replace(' ', "")
}
fn is(a: &A) -> String {
    [a.is::<f64>(), a.is::<bool>(), a.is::<Null>(), a.is::<JsStringRef<Global>>(), a.is::<JsObjectRef<Global>>(), a.is::<JsArrayRef<Global>>(), a.is::<JsBigintRef<Global>>()]
        .map(|b| if b { '1' } else { '0' })
        .iter()
        .collect()
}
fn refs(a: &A) -> String {
    let at = |p: *const u64| format!("@{:x}", p as u64);
    [
        a.try_ref::<JsString>().map(|b| at(b.object() as *const _ as _)),
        a.try_ref::<JsObject<Global>>().map(|b| at(b.object() as *const _ as _)),
        a.try_ref::<JsArray<Global>>().map(|b| at(b.object() as *const _ as _)),
        a.try_ref::<JsBigint>().map(|b| at(b.object() as *const _ as _)),
    ]
    .map(|r| r.unwrap_or("-".into()))
    .join(",")
}
/// `any GRAPH GRAPH2`: two values; `any bs OP tag mask tag mask value`
pub fn serve(f: &[&str]) -> String {
    if f[0] == "bs" {
        let x: Vec<u64> = f[2..].iter().map(|s| u64::from_str_radix(s, 16).unwrap()).collect();
        let (a, b) = (<BitSubset64>::from_tag_and_mask(x[0], x[1]), <BitSubset64>::from_tag_and_mask(x[2], x[3]));
        let show = |s: BitSubset64| format!("{:x} {:x} {:x} {:x} {}", s.tag, s.mask, s.union(), s.superposition(), s.has(x[4]));
        return match f[1] {
            "one" => show(a),
            "or" => show(a.clone().or_unchecked(b)),
            "orx" => show(a.or(b).cast::<u64>()),
            "tag" => show(<BitSubset64>::from_tag(x[5])),
            "and" => show(a.and(b)),
            "split" => {
                let (p, q) = a.split(x[5]);
                format!("{} {}", show(p), show(q))
            }
            "su" => show(<BitSubset64>::from_tag_and_union(x[0], x[0] | x[5])),
            _ => {
                let w = a.typed_value_to_subset_value(x[5]);
                format!("{:x} {} {:x}", w, a.has(w), a.subset_value_to_typed_value(w))
            }
        };
    }
    let (a, b) = (build(f[0]), build(f[1]));
    let c = a.clone();
    // a number with the address of the block as its bits is another value
    let p = taken(&a).rsplit_once('@').map_or(1, |x| u64::from_str_radix(x.1.split(',').next().unwrap(), 16).unwrap());
    let n = [p, p - std::mem::size_of::<isize>() as u64 * (p > 8) as u64].map(|p| A::move_from(f64::from_bits(p)));
    let num = n.iter().any(|n| *n == a || a == *n) as u8;
    // equal values have equal hashes
    let h = |x: &A| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        std::hash::Hash::hash(x, &mut s);
        std::hash::Hasher::finish(&s)
    };
    let alike = (h(&a) == h(&c) && (a != b || h(&a) == h(&b))) as u8;
    format!("{:?} {} {} {} {}{}{}{}{num}{alike}", a.get_type(), is(&a), taken(&a), refs(&a), (a == c) as u8, (a == b) as u8, (b == a) as u8, a.is_ref() as u8)
}
