"""What each property is decided by."""
import os
import extract

COMMON_TRUST = [
    "Verus 0.2026.09 and its vstd contracts for Vec/slice/integer functions, Z3",
    "extract.py: function bodies are copied token by token from /repo on every run; the only rewrites are the ones counted in extraction_rewrites",
    "Rust's slice/adapter iterators behave like the verified iterator structs in units/iters.vrs that replace them",
]
COMMON_ASSUMPTIONS = [
    "64-bit target (usize is 8 bytes)",
    "no Vec or slice of u64 exceeds 2^56 bytes",
    "allocation succeeds",
]

TECH = "contract-based deductive verification with Verus: contracts spliced into the functions extracted from /repo on every run"
NOTE = ("Every listed function of the property is verified against its contract for all inputs and all iterations (no bound). "
        "Assumed: the contracts listed under trusted_base in the evidence file (memory-manager constructors, std functions), 64-bit target, no Vec above 2^56 bytes. "
        "A function that a change has moved out of the verifier's reach is reported as bounded and decided by replaying generated inputs on the real code.")
NOT_APPLICABLE = {}

JB_CORE = ["default", "<FlexibleArrayHeader for JsBigintHeader>::len", "JsBigint::header_len", "JsBigint::sign", "Sign::opposite", "new_bigint", "zero", "from_u64", "is_zero", "normalize_vec", "cmp_vec", "add_vec", "sub_vec_norm", "sub_vec"]
JB_MUL = ["new_resize", "add_to_vec", "mul_vec"]
JB_TRUST = [
    "assumed contracts (units/js_bigint.vrs): FlexibleArray::items, FlexibleArrayConstructor::new, Manager::new (a new array holds the header and the items given), slice::to_vec, isize::unsigned_abs, Ordering::eq",
]


def unit_fns(name, overlay):
    chunks, _ = extract.parse_overlay(overlay)
    return [c["name"] for c in chunks if c["kind"] in ("fn", "constfn", "constx", "enumx")]


UNITS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units")


def module_fns(name):
    """the functions a unit verifies: those after its `module` directive"""
    chunks, _ = extract.parse_overlay(os.path.join(UNITS, name + ".vrs"))
    k = next(i for i, c in enumerate(chunks) if c["kind"] == "module")
    r = []
    for c in chunks[k:]:
        if c["kind"] in ("fn", "constfn", "constx", "enumx") and c["name"] not in r:
            r.append(c["name"])
    return r


PROPS = {
    "B01": dict(units={"js_bigint": JB_CORE + JB_MUL + ["add", "sub", "negative", "mul"]}, fals=["jb_ring"], level="proof", trusted=JB_TRUST),
    "B02": dict(units={"js_bigint": JB_CORE + ["cmp_vec", "JsBigint::compare", "equals", "JsBigint::get_last_bit"]}, fals=["jb_order"], level="proof", trusted=JB_TRUST),
    "B03": dict(units={"js_bigint": JB_CORE + JB_MUL + ["div_mod"]}, fals=["jb_div"], level="proof", trusted=JB_TRUST),
    "B04": dict(units={"js_bigint": JB_CORE + JB_MUL + ["shl", "shr", "shl_on_u64", "shr_on_u64", "shr_on_big"]}, fals=["jb_shift"], level="proof", trusted=JB_TRUST),
    "B05": dict(units={"js_bigint": JB_CORE + ["not", "TwosComplement::repeat", "to_twos_complement", "from_twos_complement", "twos_complement_zip", "and_twos_complement", "or_twos_complement", "xor_twos_complement", "and", "or", "xor"]}, fals=["jb_bits"], level="proof", trusted=JB_TRUST),
    "B06": dict(units={"js_bigint": JB_CORE + JB_MUL + ["JsBigint::get_last_bit", "pow", "pow_u64"]}, fals=["jb_pow"], level="proof", trusted=JB_TRUST),
}
BU = ["default", "<Cast<Vec<T>> for [T; N]>::cast", "new_resize", "BigUint::ZERO", "BigUint::one", "BigUint::normalize", "BigUint::is_one", "BigUint::len", "BigUint::is_empty", "BigUint::is_zero", "BigUint::from_u64"]
BU_RING = ["BigUint::get_last_bit", "BigUint::to_big_int", "<Ord for BigUint>::cmp", "<PartialOrd for BigUint>::partial_cmp", "<Add for &BigUint>::add", "<Sub for &BigUint>::sub", "add_to_vec", "<Mul for &BigUint>::mul"]
BI = ["BigInt::ZERO", "BigInt::normalize", "BigInt::is_zero", "BigInt::new", "BigInt::from_u64", "BigInt::abs", "BigInt::from_i64", "<Add for &BigInt>::add", "<Neg for BigInt>::neg", "<Sub for BigInt>::sub", "<Default for Sign>::default", "<Ord for Sign>::cmp", "<PartialOrd for Sign>::partial_cmp", "<Ord for BigInt>::cmp", "<PartialOrd for BigInt>::partial_cmp", "<Mul for &BigInt>::mul"]
BU_DIV = ["BigUint::div_mod", "<Div for &BigUint>::div", "BigInt::div_mod", "<Div for &BigInt>::div"]
BU_TRUST = ["assumed contracts (units/big.vrs): array by-value iteration, i64::unsigned_abs, Ordering::eq; derived Clone/Default written out field by field; operator traits verified as the inherent functions they dispatch to"]
PROPS["B07"] = dict(units={"big": BU + BU_RING + BI + ["BigUint::pow_u64", "BigUint::pow"], "js_bigint": ["new_bigint", "to_js_bigint"]}, fals=["big_legacy", "big_pow"], level="proof", trusted=BU_TRUST + JB_TRUST)
PROPS["B08"] = dict(units={"big": BU + BU_RING + BU_DIV + ["<Shl for &BigUint>::shl", "<Shr for &BigUint>::shr"]}, fals=["big_div", "big_shift"], level="proof", trusted=BU_TRUST)
PROPS["R01"] = dict(units={"range_map": "*"}, fals=["range_maps"], level="proof", trusted=[
    "assumed contracts (units/range_map.vrs): char comparison is by code point, char::from_u32, RangeInclusive start/end, the static default of State is `None`, array iteration by value; values are copied by Clone"])
PROPS["N01"] = dict(units={"numbers": ["float_zero", "BigFloat::increase_significand_to", "BigFloat::increase_significand", "BigFloat::decrease_significand", "BigFloat::to_bin", "BigFloat::get_frac_round", "BigFloat::get_f64_bits", "BigFloat::to_f64",
    "bigfloat_to_f64", "digit_to_number", "JsBigintMutRef::from_digit", "JsBigintMutRef::add_digit", "IntState::into_float_state", "IntState::into_exp_state", "IntState::into_bigint_state", "int_state_into_number_token",
    "FloatState::add_digit", "FloatState::into_exp_state", "float_state_into_token", "ExpState::add_digit", "exp_state_into_token", "zero_to_number_token", "start_number"] + JB_CORE + JB_MUL + ["add", "mul", "negative", "JsBigint::compare", "JsBigint::get_last_bit", "div_mod", "pow_u64", "shl_on_u64", "shl", "shr_on_u64"]},
    fals=["dec_num"], level="proof", trusted=JB_TRUST + [
    "f64::from_bits and u64 bit patterns: vstd's FloatBitsProperties (IEEE 754 binary64 layout)", "assumed contracts (units/numbers_core.vrs): i64::saturating_add, i64::saturating_mul"])
PROPS["T01"] = dict(units={"tokenizer": module_fns("tokenizer"), "numbers": PROPS["N01"]["units"]["numbers"], "range_map": "*"}, fals=["tokens"], level="proof", trusted=PROPS["N01"]["trusted"] + PROPS["R01"]["trusted"] + [
    "tokenizer unit: each transition closure is verified as a function of its own (body copied), and calling a transition calls that function; String::chars gives the chars of the text in order, VecDeque::extend appends, Iterator::collect gathers the results of next",
    "texts shorter than 2^60 chars", "derived Clone of State copies its value; String equality with a literal is equality of the chars"])
PATH_TRUST = ["assumed contracts (units/path_core.vrs): str::split and rsplit_once by a char, starts_with, join, String::push_str are what their documentation says"]
PARSER_TRUST = [
    "assumed contracts (units/parser_core.vrs): Any::move_from, new_string, new_array, new_object keep the value given; BTreeMap and BTreeSet insert, get, contains, remove and iteration in key order; str::encode_utf16 is UTF-16 (u16s)",
    "the tokens of a file's text are those T01 proves (tokenize), and reading a file is a function of its name (the files do not change while they are read; finitely many)",
    "ModuleCache behind `&mut` in Context is verified as a field of Context",
    "the call stack and memory suffice (nesting of modules and of values)"]
PROPS["P02"] = dict(units={"path": module_fns("path")}, fals=["paths"], level="proof", trusted=PATH_TRUST)
PROPS["P01"] = dict(units={"parser": module_fns("parser"), "path": module_fns("path")}, lemmas=["parser::pushed_one_by_one"], fals=["documents"], level="proof", trusted=PARSER_TRUST + PATH_TRUST)
PROPS["L01"] = dict(units={"parser": ["Context::new", "any_state_parse_import_value", "AnyState::end_import", "AnyState::begin_import", "AnyState::parse_import_begin", "AnyState::parse_import_end", "any_state_parse", "any_state_parse_for_module", "const_state_parse", "RootState::parse", "root_state_parse", "json_state_push", "JsonState::end", "parse_with_tokens", "parse"], "path": module_fns("path")},
    fals=["modules"], level="proof", trusted=PARSER_TRUST + PATH_TRUST)
SER_TRUST = [
    "assumed contracts (units/ser_core.vrs): an Any is one of the seven kinds, and get_type, try_move and move_to_any agree on which; values do not change while they are written and are acyclic; core::fmt::Write for a String appends and never fails",
    "the text of an f64 is that of the standard library's Display, the text of a usize is its decimal digits (nat_text)",
    "the call stack and memory suffice (nesting of values)",
    "reading back (lemmas json_reads_back, djs_reads_back of units/roundtrip_core.vrs over the grammars T01 and P01 prove): Display writes a finite f64 as a decimal nearest to it alone (ax_f64); members of an object come back in the order of their names (exactly as they were where the names ascend: lemma val_is_same); surrogates are a known finding; that sharing comes back is checked on inputs, bounded"]
SER_JSON = ["to_visitor", "WriteJson::write_u4_hex", "WriteJson::write_js_escape", "WriteJson::write_js_string", "WriteJson::write_list", "WriteJson::write_json", "to_json"]
PROPS["S01"] = dict(units={"serializer": SER_JSON, "roundtrip": []}, lemmas=["roundtrip::json_reads_back"], fals=["json_texts"], level="proof", trusted=SER_TRUST)
PROPS["S02"] = dict(units={"serializer": "*", "roundtrip": []}, lemmas=["roundtrip::djs_reads_back"], fals=["djs_texts"], level="proof", trusted=SER_TRUST + [
    "assumed contracts (units/djs_core.vrs): HashMap with values as keys, in any order of iteration; two values are equal when their words are (A01, which also proves that equal values hash alike)"])
PROPS["A01"] = dict(units={"anyval": "*"}, fals=["any_values"], level="proof", trusted=[
    "assumed contracts (units/anyval_core.vrs): casting an integer to a pointer and a pointer to an integer keeps the address; f64::to_bits and from_bits are inverse and is_nan is that of IEEE 754; f64::NAN has the bits 7ff8000000000000",
    "addresses of blocks have at most 48 bits (what try_ref and references rest on; not checked by the code)",
    "moving out of an OptionalRef copies its word; that the count of references stays right is M01"])
PROPS["C01"] = dict(units={"app": "*"}, fals=["programs"], level="proof", trusted=[
    "assumed contracts (units/app_core.vrs): parse gives the value of the document (P01, L01), to_json and to_djs its texts (S01, S02); files and writes of Io are a ghost World threaded through write; String::as_bytes, str::ends_with, Formatter::write_str, to_string as what fmt writes, Error::other of a text says that text",
    "three arguments are given (run panics otherwise)", "the value can be written (no bigint in JSON: known finding of S01)"])

MEM_TRUST = [
    "assumed contracts (units/mem_core.vrs): a ghost heap stands for memory: where a pointer points in a block (vobj, vblk, vhdr, ..), what writing an item or a header there does, that dropping a value in place drops its fields (drop glue), and that a variable that goes out of scope is dropped as OptionalRef::drop and MutRef::drop say",
    "assumed contracts: the system allocator gives null or fresh memory, aligned, below 2^48; a type's size is a multiple of its alignment, alignments are powers of two; fewer than isize::MAX references to a block exist",
    "Cell and AtomicIsize are a place with a number (histories of one thread; that values stay in one thread is checked by type, bounded)",
    "an iterator gives as many items as it says, or construct panics (and leaks the block)",
    "a Local outlives what it has handed out (by its lifetime); provenance of pointers is not modelled; the call stack suffices for nested drops"]
_MEM_LAYOUT = [f for f in module_fns("mem") if f in module_fns("layout") or f.startswith(("Block", "Object", "FlexibleArray", "<Object", "<Constructor", "<FlexibleArrayHeader", "<From<I>", "Manager", "Fixed", "<Dealloc", "<Manager", "Local", "new_", "Sign", "New::"))]
PROPS["M01"] = dict(units={"mem": "*"}, fals=["mem_ops"], level="proof", trusted=MEM_TRUST)
PROPS["M02"] = dict(units={"mem": _MEM_LAYOUT}, fals=["mem_layouts"], level="proof", trusted=MEM_TRUST)
