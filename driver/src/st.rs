//! The parser one token at a time, and `to_js_bigint`: entry points nothing else in the crate calls.
use crate::{
    jsbig, hex_to_limbs,
    par::{dump, named},
    tok::text,
};
use nanvm_lib::{
    big_numbers::{big_int, big_uint::BigUint},
    common::default::default,
    js::any::Any,
    mem::global::{Global, GLOBAL},
    parser::{
        any_state::{AnyResult, AnyState},
        json_state::JsonState,
        root_state::{RootState, RootStatus},
        shared::{to_js_bigint, to_js_string, JsonElement},
    },
    tokenizer::{tokenize, JsonToken},
};

/// `TEXT`: its tokens given one by one to `JsonState::push`; an import stands for its own name
pub fn serve(a: &[&str]) -> String {
    let mut st = JsonState::ParseRoot(RootState { status: RootStatus::Initial, state: default(), new_line: true });
    for t in tokenize(GLOBAL, text(a[0])) {
        let (s, import) = st.push(GLOBAL, t);
        st = match (s, import) {
            (s, None) => s,
            (JsonState::ParseRoot(mut r), Some((id, module))) => {
                r.state.consts.insert(id, Any::move_from(to_js_string(GLOBAL, module)));
                JsonState::ParseRoot(RootState { status: RootStatus::Initial, state: r.state, new_line: false })
            }
            _ => return "an import and no place for it".into(),
        };
    }
    match st.end() {
        Ok(r) => format!("{}{}", named(r.data_type), dump(r.any)),
        Err(e) => format!("error {e:?}"),
    }
}
/// `KIND TEXT`: the tokens of a value given one by one to `AnyState::parse` (odd: `parse_for_module`); a module stands
/// for its own name
pub fn serve_any(a: &[&str]) -> String {
    let mut st: AnyState<Global> = default();
    st = match &a[0][1..] {
        "djs" => st.set_djs(),
        "cjs" => st.set_cjs(),
        "mjs" => st.set_mjs(),
        _ => st,
    };
    let module = &a[0][..1] == "m";
    let mut it = tokenize(GLOBAL, text(a[1])).into_iter();
    while let Some(t) = it.next() {
        if let JsonToken::NewLine = t {
            continue;
        }
        let name;
        if module {
            let (s, n) = st.parse_for_module(GLOBAL, t);
            name = n;
            st = match s {
                JsonState::ParseModule(s) => s,
                JsonState::Result(r) => return format!("{}{} {}", named(r.data_type), dump(r.any), it.count()),
                JsonState::Error(e) => return format!("error {e:?} {}", it.count()),
                _ => return "neither a value nor an error".into(),
            };
        } else {
            let (r, n) = st.parse(GLOBAL, t);
            name = n;
            st = match r {
                AnyResult::Continue(s) => s,
                AnyResult::Success(r) => return format!("{}{} {}", named(r.state.data_type), dump(r.value), it.count()),
                AnyResult::Error(e) => return format!("error {e:?} {}", it.count()),
            };
        }
        if let Some(n) = name {
            st.current = JsonElement::Any(Any::move_from(to_js_string(GLOBAL, n)));
        }
    }
    "more".into()
}
/// `A`: the number as a big integer value
pub fn serve_big(a: &[&str]) -> String {
    let (neg, v) = hex_to_limbs(a[0]);
    let sign = if neg { big_int::Sign::Negative } else { big_int::Sign::Positive };
    jsbig::show(&to_js_bigint(GLOBAL, big_int::BigInt { sign, value: BigUint { value: v } }))
}
