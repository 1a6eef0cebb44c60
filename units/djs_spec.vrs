//@ raw
// ---------------------------------------------------------------------------------------------
// DJS text: the arrays and objects that are referred to more than once become constants.
// ---------------------------------------------------------------------------------------------
// c is b or a part of it
pub open spec fn reach(b: u64, c: u64) -> bool decreases rank(b) { b == c || exists|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) && reach(kids(b)[i], c) }
pub open spec fn occ(s: Seq<u64>, c: u64) -> nat decreases s.len() { if s.len() == 0 { 0 } else { occ(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } } }
// how often the values in s refer to c
pub open spec fn tot(s: Seq<u64>, c: u64) -> nat decreases s.len() { if s.len() == 0 { 0 } else { tot(s.drop_last(), c) + occ(kids(s.last()), c) } }
// the arrays and objects of b that are not in s, in the order of their first occurrence
pub open spec fn dfs(b: u64, s: Set<u64>) -> Seq<u64> decreases rank(b), kids(b).len() + 1 {
    if !compound(b) || s.contains(b) { Seq::empty() } else { seq![b] + dfsk(b, kids(b).len(), s.insert(b)) }
}
pub open spec fn dfsk(b: u64, n: nat, s: Set<u64>) -> Seq<u64> decreases rank(b), n {
    if n == 0 || n > kids(b).len() { Seq::empty() } else {
        let a = dfsk(b, (n - 1) as nat, s); let k = kids(b)[n - 1];
        if rank(k) < rank(b) { a + dfs(k, s.union(a.to_set())) } else { a } }
}
pub open spec fn compounds(b: u64) -> Seq<u64> { dfs(b, Set::empty()) }
pub open spec fn shared(b: u64, c: u64) -> bool { compounds(b).contains(c) && tot(compounds(b), c) >= 2 }
// the constants in s that b needs, each after those it needs itself
pub open spec fn post(b: u64, s: Set<u64>) -> Seq<u64> decreases rank(b), kids(b).len() + 1 {
    if !compound(b) { Seq::empty() } else { let k = postk(b, kids(b).len(), s); if s.contains(b) && !k.contains(b) { k.push(b) } else { k } }
}
pub open spec fn postk(b: u64, n: nat, s: Set<u64>) -> Seq<u64> decreases rank(b), n {
    if n == 0 || n > kids(b).len() { Seq::empty() } else {
        let a = postk(b, (n - 1) as nat, s); let k = kids(b)[n - 1];
        if rank(k) < rank(b) { a + post(k, s.difference(a.to_set())) } else { a } }
}
// constants are numbered in the order they are defined in
pub open spec fn ext(r: Refs, s: Seq<u64>) -> Refs decreases s.len() { if s.len() == 0 { r } else { let q = ext(r, s.drop_last()); q.insert(s.last(), q.dom().len()) } }
pub open spec fn def(n: nat, v: Seq<char>) -> Seq<char> { "const _"@ + nat_text(n) + seq!['='] + v + seq![';'] }
pub open spec fn defs_from(r: Refs, s: Seq<u64>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let q = ext(r, s.drop_last()); defs_from(r, s.drop_last()) + def(q.dom().len(), txt(s.last(), q)) } }
// ---------------------------------------------------------------------------------------------
// What is written: definitions in an order where each constant is defined once and before it is used, then the value.
// ---------------------------------------------------------------------------------------------
pub open spec fn index(s: Seq<u64>) -> Refs { ext(Map::empty(), s) }
pub open spec fn defs(s: Seq<u64>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { defs(s, (n - 1) as nat) + def((n - 1) as nat, body(s[n - 1], index(s))) } }
pub open spec fn ordered(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && #[trigger] reach(s[i], s[j]) ==> j < i }
#[verifier::opaque]
pub open spec fn order_of(b: u64, s: Seq<u64>) -> bool {
    &&& s.no_duplicates()
    &&& forall|c: u64| #[trigger] s.contains(c) <==> shared(b, c)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] index(s)[s[i]] == i
    &&& index(s).dom() == s.to_set()
    &&& ordered(s)
}
pub open spec fn start_text(cjs: bool) -> Seq<char> { if cjs { "module.exports="@ } else { "export default "@ } }
pub open spec fn djs(b: u64, s: Seq<u64>, cjs: bool) -> Seq<char> { defs(s, s.len()) + start_text(cjs) + txt(b, index(s)) }
pub open spec fn is_djs(b: u64, cjs: bool, t: Seq<char>) -> bool { exists|s: Seq<u64>| order_of(b, s) && t == djs(b, s, cjs) }
