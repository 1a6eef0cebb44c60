//! References and blocks: a history of operations, with every allocation recorded; layouts; too long arrays; threads; panics.
use crate::track::{self, off, on};
use nanvm_lib::{
    common::ref_mut::RefMut,
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArray, JsArrayMutRef, JsArrayRef},
        js_bigint::{new_bigint, JsBigint, JsBigintMutRef, JsBigintRef, Sign},
        js_object::{new_object, JsObject, JsObjectMutRef, JsObjectRef},
        js_string::{new_string, JsString, JsStringMutRef, JsStringRef},
        new::New,
        null::Null,
        visitor::{to_visitor, Visitor},
    },
    mem::{
        flexible_array::{constructor::FlexibleArrayConstructor, header::FlexibleArrayHeader, FlexibleArray},
        global::{Global, GLOBAL},
        local::Local,
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
        ref_::Ref,
    },
};
use std::cell::Cell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---- things whose drops are counted ----
thread_local! { static DROPS: Cell<[i32; 32]> = const { Cell::new([0; 32]) }; }
fn drops(i: usize) -> i32 {
    DROPS.with(|d| d.get()[i])
}
struct Dc(u64, usize);
impl Drop for Dc {
    fn drop(&mut self) {
        // not a Dc any more: it is dropped where nothing has been made, or again
        if self.0 != 0x5EED {
            DROPS.with(|d| { let mut v = d.get(); v[31] += 1; d.set(v) });
            return;
        }
        self.0 = 0xDEAD;
        DROPS.with(|d| { let mut v = d.get(); v[self.1] += 1; d.set(v) });
    }
}
fn dc(i: usize) -> Dc {
    Dc(0x5EED, i)
}
struct Hd(Dc, usize);
impl Drop for Hd {
    fn drop(&mut self) {
        // nobody reads the length of what is gone
        self.1 += 1;
    }
}
impl FlexibleArrayHeader for Hd {
    fn len(&self) -> usize {
        self.1
    }
}

// ---- slots ----
enum V<D: Dealloc> {
    E,
    A(Any<D>),
    S(JsStringRef<D>),
    O(JsObjectRef<D>),
    R(JsArrayRef<D>),
    B(JsBigintRef<D>),
    G(Ref<FlexibleArray<Dc, Hd>, D>),
    Ms(JsStringMutRef<D>),
    Mo(JsObjectMutRef<D>),
    Mr(JsArrayMutRef<D>),
    Mb(JsBigintMutRef<D>),
    Mg(MutRef<FlexibleArray<Dc, Hd>, D>),
}
use V::*;

fn show_any<D: Dealloc>(a: &Any<D>, d: u32) -> String {
    if d == 0 {
        return "..".into();
    }
    if let Ok(b) = a.try_ref::<JsString>() {
        return show_str(b.object());
    }
    if let Ok(b) = a.try_ref::<JsObject<D>>() {
        return show_obj(b.object(), d);
    }
    if let Ok(b) = a.try_ref::<JsArray<D>>() {
        return show_arr(b.object(), d);
    }
    if let Ok(b) = a.try_ref::<JsBigint>() {
        return show_big(b.object());
    }
    if let Ok(v) = a.clone().try_move::<f64>() {
        return format!("n{:x}", v.to_bits());
    }
    if let Ok(v) = a.clone().try_move::<bool>() {
        return format!("b{v}");
    }
    "z".into()
}
fn show_str(s: &JsString) -> String {
    format!("s{}", s.items().iter().map(|c| format!("{c:x}")).collect::<Vec<_>>().join("."))
}
fn show_obj<D: Dealloc>(s: &JsObject<D>, d: u32) -> String {
    format!("o({})", s.items().iter().map(|(k, v)| format!("{}:{}", show_str(k), show_any(v, d - 1))).collect::<Vec<_>>().join(";"))
}
fn show_arr<D: Dealloc>(s: &JsArray<D>, d: u32) -> String {
    format!("a({})", s.items().iter().map(|v| show_any(v, d - 1)).collect::<Vec<_>>().join(";"))
}
fn show_big(s: &JsBigint) -> String {
    format!("i{}{}", if s.sign() == Sign::Negative { "-" } else { "" }, s.items().iter().map(|c| format!("{c:x}")).collect::<Vec<_>>().join("."))
}
fn show<D: Dealloc>(v: &V<D>) -> String {
    match v {
        E => "-".into(),
        A(a) => show_any(a, 3),
        S(r) => show_str(r),
        O(r) => show_obj(r, 3),
        R(r) => show_arr(r, 3),
        B(r) => show_big(r),
        G(r) => format!("g{}", r.items().len()),
        Ms(r) => "m".to_string() + &show_str(r),
        Mo(r) => "m".to_string() + &show_obj(r, 3),
        Mr(r) => "m".to_string() + &show_arr(r, 3),
        Mb(r) => "m".to_string() + &show_big(r),
        Mg(r) => format!("mg{}", r.items().len()),
    }
}
fn clone<D: Dealloc>(v: &V<D>) -> V<D> {
    match v {
        A(a) => A(a.clone()),
        S(r) => S(r.clone()),
        O(r) => O(r.clone()),
        R(r) => R(r.clone()),
        B(r) => B(r.clone()),
        G(r) => G(r.clone()),
        _ => E,
    }
}
fn any<D: Dealloc>(v: &V<D>) -> Any<D> {
    match v {
        A(a) => a.clone(),
        S(r) => r.clone().move_to_any(),
        O(r) => r.clone().move_to_any(),
        R(r) => r.clone().move_to_any(),
        B(r) => r.clone().move_to_any(),
        _ => Null().move_to_any(),
    }
}
fn typed<D: Dealloc>(a: Any<D>) -> V<D> {
    if a.is::<JsStringRef<D>>() {
        S(a.try_move().unwrap())
    } else if a.is::<JsObjectRef<D>>() {
        O(a.try_move().unwrap())
    } else if a.is::<JsArrayRef<D>>() {
        R(a.try_move().unwrap())
    } else if a.is::<JsBigintRef<D>>() {
        B(a.try_move().unwrap())
    } else {
        A(a)
    }
}
fn history<M: Manager>(m: M, ops: &str, size: impl Fn() -> Option<(usize, Option<usize>)>) -> String {
    const K: usize = 8;
    let mut slots: Vec<V<M::Dealloc>> = (0..K).map(|_| E).collect();
    let mut out = String::new();
    DROPS.with(|d| d.set([0; 32]));
    for op in ops.split(' ').filter(|x| !x.is_empty()) {
        let w: Vec<&str> = op.split(',').collect();
        let n = |i: usize| -> usize { w[i].parse().unwrap() };
        let k = n(1);
        let old = std::mem::replace(&mut slots[k], E);
        let mut res = String::new();
        let new: V<M::Dealloc> = match w[0] {
            "s" => { on(move || drop(old)); let v: Vec<u16> = (0..n(2)).map(|i| (k * 77 + i) as u16).collect(); on(|| A(m.new_js_string(v))) }
            "S" => { on(move || drop(old)); let v: Vec<u16> = (0..n(2)).map(|i| (k * 77 + i) as u16).collect(); on(|| Ms(new_string(m, v))) }
            "a" | "A" | "o" | "O" => {
                let items: Vec<Any<M::Dealloc>> = w[2..].iter().filter(|x| !x.is_empty()).map(|x| on(|| any(&slots[x.parse::<usize>().unwrap()]))).collect();
                on(move || drop(old));
                match w[0] {
                    "a" => on(|| A(m.new_js_array(items))),
                    "A" => on(|| Mr(new_array(m, items))),
                    _ => {
                        let props: Vec<_> = items.into_iter().enumerate().map(|(i, v)| { let t = vec![97u16; i + 1]; on(|| (new_string(m, t).to_ref(), v)) }).collect();
                        if w[0] == "o" { on(|| A(m.new_js_object(props))) } else { on(|| Mo(new_object(m, props))) }
                    }
                }
            }
            "b" | "B" => {
                on(move || drop(old));
                let v: Vec<u64> = (0..n(2)).map(|i| (i as u64 + 1) * 0x1_0000_0001).collect();
                let s = if w[3] == "-" { Sign::Negative } else { Sign::Positive };
                on(|| { let r = new_bigint(m, s, v); if w[0] == "B" { Mb(r) } else { A(r.to_ref().move_to_any()) } })
            }
            "n" => { on(move || drop(old)); A(f64::from_bits(u64::from_str_radix(w[2], 16).unwrap()).move_to_any()) }
            "z" => { on(move || drop(old)); A(Null().move_to_any()) }
            "t" => { on(move || drop(old)); A((w[2] == "1").move_to_any()) }
            "g" => {
                on(move || drop(old));
                let v: Vec<Dc> = (0..n(2)).map(|_| dc(n(3))).collect();
                let h = Hd(dc(n(3) + 16), n(2));
                on(|| Mg(m.new(FlexibleArrayConstructor::new(h, v.into_iter()))))
            }
            "c" => { on(move || drop(old)); on(|| clone(&slots[n(2)])) }
            "l" => { on(|| slots[n(2)] = E); old }
            "d" => { on(move || drop(old)); E }
            "m" => match old { A(a) => on(|| typed(a)), v => v },
            "y" => match old {
                S(r) => on(|| A(r.move_to_any())),
                O(r) => on(|| A(Any::move_from(r))),
                R(r) => on(|| A(r.move_to_any())),
                B(r) => on(|| A(r.move_to_any())),
                v => v,
            },
            "w" => {
                let v = on(|| match old {
                    S(r) => match r.try_to_mut_ref() { Ok(r) => Ms(r), Err(r) => S(r) },
                    O(r) => match r.try_to_mut_ref() { Ok(r) => Mo(r), Err(r) => O(r) },
                    R(r) => match r.try_to_mut_ref() { Ok(r) => Mr(r), Err(r) => R(r) },
                    B(r) => match r.try_to_mut_ref() { Ok(r) => Mb(r), Err(r) => B(r) },
                    G(r) => match r.try_to_mut_ref() { Ok(r) => Mg(r), Err(r) => G(r) },
                    v => v,
                });
                res = if matches!(v, Ms(_) | Mo(_) | Mr(_) | Mb(_) | Mg(_)) { "1" } else { "0" }.into();
                v
            }
            "r" => on(|| match old {
                Ms(r) => S(r.to_ref()),
                Mo(r) => O(r.to_ref()),
                Mr(r) => R(r.to_ref()),
                Mb(r) => B(r.to_ref()),
                Mg(r) => G(r.to_ref()),
                v => v,
            }),
            "x" => {
                let x = on(|| any(&slots[n(3)]));
                match old {
                    Mr(mut r) => { on(|| { let t = r.items_mut(); let i = n(2); if i < t.len() { t[i] = x } else { drop(x) } }); Mr(r) }
                    Mo(mut r) => { on(|| { let t = r.items_mut(); let i = n(2); if i < t.len() { t[i].1 = x } else { drop(x) } }); Mo(r) }
                    v => { on(|| drop(x)); v }
                }
            }
            "v" => match old {
                A(a) => on(|| match to_visitor(a) {
                    Visitor::Number(v) => A(v.move_to_any()),
                    Visitor::Null => A(Null().move_to_any()),
                    Visitor::Bool(v) => A(v.move_to_any()),
                    Visitor::String(v) => S(v),
                    Visitor::Object(v) => O(v),
                    Visitor::Array(v) => R(v),
                    Visitor::Bigint(v) => B(v),
                }),
                v => v,
            },
            // into one of the types, which may not be the value's: then it is gone
            "p" => match old {
                A(a) => {
                    let v = on(|| match n(2) {
                        0 => a.try_move::<f64>().map_or(E, |v| A(v.move_to_any())),
                        1 => a.try_move::<bool>().map_or(E, |v| A(v.move_to_any())),
                        2 => a.try_move::<Null>().map_or(E, |v| A(v.move_to_any())),
                        3 => a.try_move().map_or(E, S),
                        4 => a.try_move().map_or(E, O),
                        5 => a.try_move().map_or(E, R),
                        _ => a.try_move().map_or(E, B),
                    });
                    res = if matches!(v, E) { "0" } else { "1" }.into();
                    v
                }
                v => v,
            },
            "q" => {
                if let A(a) = &old {
                    res = on(|| [a.try_ref::<JsString>().is_ok(), a.try_ref::<JsObject<_>>().is_ok(), a.try_ref::<JsArray<_>>().is_ok(), a.try_ref::<JsBigint>().is_ok(), a.is::<f64>(), a.is_ref()]).map(|x| if x { '1' } else { '0' }).iter().collect();
                }
                old
            }
            "f" => {
                if let A(a) = &old {
                    let mut t = Vec::with_capacity(64);
                    let stop = n(2);
                    let r = on(|| a.for_each(|k, v| { t.push((k, v.clone())); if t.len() > stop { Err(()) } else { Ok(()) } }));
                    res = format!("{}{}", r.is_ok() as u8, t.iter().map(|(k, v)| format!("/{}={}", show_any(k, 2), show_any(v, 2))).collect::<String>());
                    on(|| t.clear());
                }
                old
            }
            "h" => {
                // one value in a block, its clones, and the last of them
                on(move || drop(old));
                let x = dc(n(2));
                let r = on(|| m.fixed_new((x, 7u8)));
                res = format!("{}", r.0 .1);
                let r = on(|| r.to_ref());
                let q = on(|| r.clone());
                res += &format!("{}{}", q.0 .0 .1, drops(n(2)));
                let e = on(|| match r.try_to_mut_ref() { Ok(_) => 'm', Err(r) => { drop(r); 's' } });
                res += &format!("{e}{}", drops(n(2)));
                let e = on(|| match q.try_to_mut_ref() { Ok(_) => 'm', Err(r) => { drop(r); 's' } });
                res += &format!("{e}{}", drops(n(2)));
                E
            }
            _ => return "bad-op".into(),
        };
        slots[k] = new;
        out += &format!(" {}:{res}", track::live());
        if let Some((s, c)) = size() {
            out += if s == track::bytes() && c.map_or(true, |c| c == track::live()) { "" } else { "!" };
        }
        if track::bad() != 0 {
            out += &format!("#{}", track::bad());
        }
    }
    out += " |";
    let t: Vec<String> = slots.iter().map(show).collect();
    out += &t.join(" ");
    for v in slots.iter_mut() {
        let v = std::mem::replace(v, E);
        on(move || drop(v));
    }
    drop(t);
    let d = DROPS.with(|d| d.get());
    out + &format!("| {} {} {} {}", track::live(), track::bad(), size().map_or(0, |s| s.0), d.map(|x| x.to_string()).join(","))
}

/// the counter of a manager, if it shows one
fn counter(l: &Local) -> Option<usize> {
    let s = format!("{l:?}");
    s.split_once("counter: Cell { value: ")?.1.split_once(' ')?.0.parse().ok()
}

// ---- layouts ----
#[repr(align(16))]
#[derive(Clone, Copy)]
struct A16(u8);
#[repr(align(64))]
#[derive(Clone, Copy)]
struct A64(u8);
macro_rules! header {
    ($n:ident, $t:ty, $a:literal) => {
        #[repr(align($a))]
        struct $n($t);
        impl FlexibleArrayHeader for $n {
            fn len(&self) -> usize {
                self.0 as usize
            }
        }
        impl From<usize> for $n {
            fn from(n: usize) -> Self {
                $n(n as $t)
            }
        }
    };
}
header!(H1, u8, 1);
header!(H2, u16, 2);
header!(H4, u32, 4);
header!(H32, u8, 32);
header!(H128, u16, 128);
trait It: Copy {
    fn of(i: usize) -> Self;
    fn val(&self) -> u8;
}
impl It for u8 { fn of(i: usize) -> Self { i as u8 } fn val(&self) -> u8 { *self } }
impl It for u16 { fn of(i: usize) -> Self { (i as u16).wrapping_mul(257) } fn val(&self) -> u8 { *self as u8 } }
impl It for u64 { fn of(i: usize) -> Self { i as u64 } fn val(&self) -> u8 { *self as u8 } }
impl It for [u8; 3] { fn of(i: usize) -> Self { [i as u8; 3] } fn val(&self) -> u8 { self[2] } }
impl It for [u16; 5] { fn of(i: usize) -> Self { [i as u16; 5] } fn val(&self) -> u8 { self[4] as u8 } }
impl It for A16 { fn of(i: usize) -> Self { A16(i as u8) } fn val(&self) -> u8 { self.0 } }
impl It for A64 { fn of(i: usize) -> Self { A64(i as u8) } fn val(&self) -> u8 { self.0 } }
impl It for () { fn of(_: usize) -> Self {} fn val(&self) -> u8 { 0 } }

fn lay<M: Manager, H: FlexibleArrayHeader + From<usize>, I: It>(m: M, n: usize) -> String {
    let z = |v: u8| if std::mem::size_of::<I>() == 0 { 0 } else { v };
    let mut r = on(|| m.new(FlexibleArrayConstructor::new(H::from(n), (0..n).map(I::of))));
    let mut ok = track::live() == 1 && r.items().len() == n;
    let p = r.items().as_ptr() as usize;
    ok &= p % std::mem::align_of::<I>() == 0 && track::within(p, n * std::mem::size_of::<I>());
    let o = &*r as *const _ as usize;
    ok &= o % std::mem::align_of::<H>() == 0 && track::within(o, std::mem::size_of::<H>()) && o + std::mem::size_of::<H>() <= p;
    ok &= r.items().iter().enumerate().all(|(i, x)| x.val() == z(i as u8));
    for i in r.items_mut() {
        *i = I::of(200);
    }
    let s = on(|| r.to_ref());
    let t = on(|| s.clone());
    ok &= t.items().len() == n && t.items().iter().all(|x| x.val() == z(200));
    on(|| drop(s));
    ok &= track::live() == 1 && track::bad() == 0;
    on(|| drop(t));
    ok &= track::live() == 0;
    format!("{ok},{}", track::bad())
}
fn lay_i<M: Manager, H: FlexibleArrayHeader + From<usize>>(m: M, i: usize, n: usize) -> String {
    match i {
        0 => lay::<M, H, u8>(m, n),
        1 => lay::<M, H, u16>(m, n),
        2 => lay::<M, H, u64>(m, n),
        3 => lay::<M, H, [u8; 3]>(m, n),
        4 => lay::<M, H, [u16; 5]>(m, n),
        5 => lay::<M, H, A16>(m, n),
        6 => lay::<M, H, A64>(m, n),
        _ => lay::<M, H, ()>(m, n),
    }
}
fn lay_h<M: Manager>(m: M, h: usize, i: usize, n: usize) -> String {
    match h {
        0 => lay_i::<M, usize>(m, i, n),
        1 => lay_i::<M, H1>(m, i, n % 256),
        2 => lay_i::<M, H2>(m, i, n % 65536),
        3 => lay_i::<M, H4>(m, i, n),
        4 => lay_i::<M, H32>(m, i, n % 256),
        _ => lay_i::<M, H128>(m, i, n % 65536),
    }
}

// ---- too long ----
struct Many(usize);
impl Iterator for Many {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        Some(0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0, Some(self.0))
    }
}
impl ExactSizeIterator for Many {
    fn len(&self) -> usize {
        self.0
    }
}
struct Hn(usize);
impl FlexibleArrayHeader for Hn {
    fn len(&self) -> usize {
        self.0
    }
}
fn long<M: Manager>(m: M, kind: &str, n: usize) {
    match kind {
        "a" => drop(m.new_js_array(Many(n).map(|_| Null().move_to_any()))),
        "s" => drop(m.new_js_string(Many(n).map(|x| x as u16))),
        "b" => drop(new_bigint(m, Sign::Positive, Many(n))),
        "u" => drop(m.flexible_array_new::<u8, _>(Many(n).map(|x| x as u8))),
        "l" => drop(m.flexible_array_new::<[u64; 64], _>(Many(n).map(|x| [x; 64]))),
        "h" => drop(m.new(FlexibleArrayConstructor::new(Hn(n), Many(n).map(|x| [x; 3])))),
        _ => drop(m.flexible_array_new::<A64, _>(Many(n).map(|x| A64(x as u8)))),
    }
}

// ---- threads ----
struct W<T>(PhantomData<T>);
trait NotSend { fn send(&self) -> bool { false } }
impl<T> NotSend for &W<T> {}
impl<T: Send> W<T> { fn send(&self) -> bool { true } }
struct Y<T>(PhantomData<T>);
trait NotSync { fn sync(&self) -> bool { false } }
impl<T> NotSync for &Y<T> {}
impl<T: Sync> Y<T> { fn sync(&self) -> bool { true } }

// ---- panics ----
pub fn modify_panics() -> i32 {
    DROPS.with(|d| d.set([0; 32]));
    let x = dc(1);
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let mut x = x;
        x.modify(|_| panic!());
    }));
    drops(1) * 2 + drops(31) * 64
}
pub fn alloc_fails(local: bool) -> i32 {
    let l = Local::default();
    track::fail();
    on(|| if local { drop((&l).new_js_string([1u16, 2])) } else { drop(GLOBAL.new_js_string([1u16, 2])) });
    0
}
fn child(arg: &str) -> String {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(arg).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).output();
    match o {
        // the check of a debug build
        Ok(o) if String::from_utf8_lossy(&o.stderr).contains("pointer") => "a bad pointer".into(),
        Ok(std::process::Output { status: s, .. }) => match s.code() { Some(c) => format!("exit {c}"), None => format!("signal {}", std::os::unix::process::ExitStatusExt::signal(&s).unwrap_or(0)) },
        Err(e) => format!("error {e}"),
    }
}
fn modify(n: usize) -> String {
    DROPS.with(|d| d.set([0; 32]));
    let mut a: Any<Global> = on(|| GLOBAL.new_js_array([Null().move_to_any()]));
    let mut x = dc(1);
    for i in 0..n {
        on(|| a.modify(|v| GLOBAL.new_js_array([v])));
        x.modify(|_| dc(i % 8 + 2));
    }
    let l = track::live();
    on(|| drop(a));
    drop(x);
    format!("{l} {} {} {}", track::live(), track::bad(), DROPS.with(|d| d.get().map(|x| x.to_string()).join(",")))
}
fn swap() -> String {
    let mut a = new_string(GLOBAL, [1u16]);
    let mut b = new_string(GLOBAL, [1u16, 2, 3]);
    std::mem::swap(&mut *a, &mut *b);
    let r = format!("{} {}", a.items().len(), b.items().len());
    std::mem::swap(&mut *a, &mut *b);
    r
}

pub fn serve(a: &[&str]) -> String {
    track::reset();
    let r = match a[0] {
        "ops" if a[1] == "g" => history(GLOBAL, a[2], || None),
        "ops" => {
            let l = Local::default();
            history(&l, a[2], || off(|| Some((l.size(), counter(&l)))))
        }
        "lay" => {
            let n = |i: usize| a[i].parse::<usize>().unwrap();
            if a[1] == "g" {
                lay_h(GLOBAL, n(2), n(3), n(4))
            } else {
                let l = Local::default();
                let s = lay_h(&l, n(2), n(3), n(4));
                format!("{s},{}", l.size())
            }
        }
        "long" => {
            let n = a[3].parse().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| if a[1] == "g" { long(GLOBAL, a[2], n) } else { long(&Local::default(), a[2], n) }));
            if r.is_err() { "refused" } else { "made" }.into()
        }
        "threads" => {
            let s = [
                (&W::<Any<Global>>(PhantomData)).send(), (&Y::<Any<Global>>(PhantomData)).sync(),
                (&W::<JsStringRef<Global>>(PhantomData)).send(), (&Y::<JsStringRef<Global>>(PhantomData)).sync(),
                (&W::<JsArrayMutRef<Global>>(PhantomData)).send(), (&Y::<JsArrayRef<Global>>(PhantomData)).sync(),
                (&W::<Any<&'static Local>>(PhantomData)).send(), (&Y::<Any<&'static Local>>(PhantomData)).sync(),
                (&Y::<Local>(PhantomData)).sync(), (&W::<&'static Local>(PhantomData)).send(),
                (&W::<u8>(PhantomData)).send(), (&Y::<u8>(PhantomData)).sync(),
            ];
            s.map(|x| if x { '1' } else { '0' }).iter().collect()
        }
        "panics" => child("modify-panics"),
        "fails" => child(if a[1] == "g" { "alloc-fails-g" } else { "alloc-fails-l" }),
        "modify" => modify(a[1].parse().unwrap()),
        "swap" => swap(),
        _ => "bad-request".into(),
    };
    track::reset();
    off(|| r)
}
