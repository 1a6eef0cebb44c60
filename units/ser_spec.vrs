//@ raw
// ---------------------------------------------------------------------------------------------
// Values as a graph: `node(b)` is what the value word b of an `Any` stands for. Values are immutable while they
// are being written, and acyclic (a value is made after its parts): the parts of a value have a smaller rank.
// ---------------------------------------------------------------------------------------------
pub enum Node { Null, Bool(bool), Num(f64), Str(Seq<u16>), Big(int), Arr(Seq<u64>), Obj(Seq<(Seq<u16>, u64)>) }
pub uninterp spec fn node(b: u64) -> Node;
pub uninterp spec fn rank(b: u64) -> nat;
pub open spec fn kids(b: u64) -> Seq<u64> { match node(b) { Node::Arr(a) => a, Node::Obj(o) => vals(o), _ => Seq::empty() } }
pub open spec fn vals(o: Seq<(Seq<u16>, u64)>) -> Seq<u64> { o.map_values(|p: (Seq<u16>, u64)| p.1) }
pub open spec fn compound(b: u64) -> bool { node(b) is Arr || node(b) is Obj }
#[verifier::external_body]
pub broadcast proof fn ax_rank(b: u64, i: int) requires 0 <= i < kids(b).len() ensures rank(#[trigger] kids(b)[i]) < rank(b) {}
// ---------------------------------------------------------------------------------------------
// JSON text. https://www.json.org/json-en.html
// ---------------------------------------------------------------------------------------------
pub uninterp spec fn f64_text(f: f64) -> Seq<char>;
// decimal digits
pub open spec fn dec_digit(n: nat) -> char { (('0' as int + n) as u8) as char }
#[verifier::opaque]
pub open spec fn nat_text(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dec_digit(n)] } else { nat_text(n / 10).push(dec_digit(n % 10)) } }
pub open spec fn hex_digit(n: int) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'A' } else if n == 11 { 'B' } else if n == 12 { 'C' } else if n == 13 { 'D' } else if n == 14 { 'E' } else { 'F' } }
pub open spec fn hex4(c: u16) -> Seq<char> { seq![hex_digit(c as int / 4096), hex_digit(c as int / 256 % 16), hex_digit(c as int / 16 % 16), hex_digit(c as int % 16)] }
pub open spec fn esc(c: u16) -> Seq<char> {
    if c == 0x5C { seq!['\\', '\\'] }
    else if c == 0x22 { seq!['\\', '"'] }
    else if c == 8 { seq!['\\', 'b'] }
    else if c == 12 { seq!['\\', 'f'] }
    else if c == 10 { seq!['\\', 'n'] }
    else if c == 13 { seq!['\\', 'r'] }
    else if c == 9 { seq!['\\', 't'] }
    else if c < 0x20 || c >= 0x80 { seq!['\\', 'u'] + hex4(c) }
    else { seq![(c as u8) as char] }
}
pub open spec fn escs(s: Seq<u16>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { escs(s.drop_last()) + esc(s.last()) } }
pub open spec fn jstr(s: Seq<u16>) -> Seq<char> { seq!['"'] + escs(s) + seq!['"'] }
// a, b, c -> "a,b,c"
pub open spec fn joined(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last()) + seq![','] + s.last() }
}
pub open spec fn list(open: char, close: char, s: Seq<Seq<char>>) -> Seq<char> { seq![open] + joined(s) + seq![close] }
// the text of the value b where the values in refs are referred to by the constants _0, _1, ..
pub type Refs = Map<u64, nat>;
pub open spec fn ref_text(n: nat) -> Seq<char> { "_"@ + nat_text(n) }
pub open spec fn txt(b: u64, refs: Refs) -> Seq<char> decreases rank(b), 2nat {
    if compound(b) && refs.dom().contains(b) { ref_text(refs[b]) } else { body(b, refs) }
}
pub open spec fn body(b: u64, refs: Refs) -> Seq<char> decreases rank(b), 1nat {
    match node(b) {
        Node::Null => "null"@,
        Node::Bool(x) => if x { "true"@ } else { "false"@ },
        Node::Num(f) => f64_text(f),
        Node::Str(s) => jstr(s),
        Node::Big(_) => Seq::empty(),
        Node::Arr(a) => list('[', ']', items(b, refs)),
        Node::Obj(o) => list('{', '}', items(b, refs)),
    }
}
pub open spec fn items(b: u64, refs: Refs) -> Seq<Seq<char>> decreases rank(b), 0nat {
    match node(b) {
        Node::Arr(a) => Seq::new(a.len(), |i: int| if rank(a[i]) < rank(b) { txt(a[i], refs) } else { Seq::empty() }),
        Node::Obj(o) => Seq::new(o.len(), |i: int| if rank(o[i].1) < rank(b) { member(o[i].0, txt(o[i].1, refs)) } else { Seq::empty() }),
        _ => Seq::empty(),
    }
}
pub open spec fn member(k: Seq<u16>, v: Seq<char>) -> Seq<char> { jstr(k) + seq![':'] + v }
pub open spec fn ser(b: u64) -> Seq<char> { txt(b, Map::empty()) }
// no bigint in it
pub open spec fn plain(b: u64) -> bool decreases rank(b) { !(node(b) is Big) && forall|i: int| 0 <= i < kids(b).len() && rank(#[trigger] kids(b)[i]) < rank(b) ==> plain(kids(b)[i]) }
pub broadcast proof fn assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn none(a: Seq<char>, b: Seq<char>) requires b.len() == 0 ensures #[trigger] (a + b) == a { assert(a + b =~= a); }
pub proof fn plain_kids(b: u64) requires plain(b) ensures forall|i: int| 0 <= i < kids(b).len() ==> #[trigger] plain(kids(b)[i]) { broadcast use ax_rank; assert forall|i: int| 0 <= i < kids(b).len() implies #[trigger] plain(kids(b)[i]) by { let k = kids(b)[i]; assert(rank(k) < rank(b)); } }
