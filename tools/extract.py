"""Mechanical extraction of functions from /repo into a Verus file, spliced with contract overlays.

The overlay (units/*.vrs) holds specifications, loop invariants and proof blocks only; every executable
token comes from /repo's current source, except for the rewrites listed by the unit (directives `gsub`,
`sub`) and the loop desugarings below, each of which is counted and reported in the evidence:
  for PAT in E { B }      ->  let mut it = E; loop { match it.next() { None => break, Some(PAT) => { B } } }
  while let P = E { B }   ->  loop { match E { P => { B } _ => break } }
Dropped: comments, attributes, tests, derives other than the ones the unit re-adds.
"""
import os
import re
import inline
import rustlex
from rustlex import lex, match_close, parse_items, LexError


class Lost(Exception):
    """A function, anchor or construct the overlay relies on is not there (any more): no verdict from the prover."""


class Overlay:
    def __init__(self):
        self.chunks = []   # list of dicts in order
        self.gsubs = []


def parse_overlay(path, seen=None):
    chunks = []
    cur = {"kind": "raw", "text": [], "file": None}
    chunks.append(cur)
    fn = None
    srcfile = None
    gsubs = []
    def newsec(d):
        d.setdefault("text", [])
        return d
    for ln, line in enumerate(open(path).read().split("\n"), 1):
        if not line.startswith("//@"):
            cur["text"].append(line)
            continue
        w = line[3:].strip()
        head, _, rest = w.partition(" ")
        if head == "file":
            srcfile = rest.strip()
            continue
        if head == "include":
            inc, ig = parse_overlay(os.path.join(os.path.dirname(path), rest.strip()))
            chunks.extend(inc)
            gsubs.extend(ig)
            cur = newsec({"kind": "raw"})
            chunks.append(cur)
            fn = None
            continue
        if head == "gsub":
            a, b = rest.split("==>>", 1) if "==>>" in rest else rest.split("=>", 1)
            gsubs.append((a.strip(), b.strip()))
            continue
        if head == "raw":
            cur = newsec({"kind": "raw"})
            chunks.append(cur)
            fn = None
            continue
        if head == "module":
            # what follows is in a module of its own, and only that module is verified in this unit
            chunks.append(newsec({"kind": "module", "name": rest.strip()}))
            cur = newsec({"kind": "raw"})
            chunks.append(cur)
            fn = None
            continue
        if head == "constfn":
            # an associated constant, emitted as a function returning its initialiser
            what, nm = rest.rsplit(None, 1)
            fn = {"kind": "constfn", "name": what, "fname": nm, "file": srcfile, "spec": [], "sections": [], "subs": [], "attrs": [], "ret": "res", "native": set(), "trunc": False}
            chunks.append(fn)
            cur = {"text": fn["spec"]}
            continue
        if head == "constx":
            # a module-level constant, emitted as `exec const` with a contract
            fn = {"kind": "constx", "name": rest.strip(), "file": srcfile, "spec": [], "sections": [], "subs": [], "attrs": [], "ret": "res", "native": set(), "trunc": False}
            chunks.append(fn)
            cur = {"text": fn["spec"]}
            continue
        if head == "enumx":
            # an enum, emitted without its discriminants, and a function from its variants to them: `enumx NAME fname`
            what, nm = rest.rsplit(None, 1)
            fn = {"kind": "enumx", "name": what, "fname": nm, "file": srcfile, "spec": [], "sections": [], "subs": [], "attrs": [], "ret": "res", "native": set(), "trunc": False}
            chunks.append(fn)
            cur = {"text": fn["spec"]}
            continue
        if head == "item":
            cur = newsec({"kind": "item", "what": rest.strip(), "file": srcfile})
            chunks.append(cur)
            fn = None
            continue
        if head == "fn":
            fn = {"kind": "fn", "name": rest.strip(), "file": srcfile, "spec": [], "sections": [], "subs": [], "attrs": [], "ret": "res", "native": set(), "trunc": False}
            chunks.append(fn)
            cur = {"text": fn["spec"]}
            continue
        if fn is None:
            raise SystemExit(f"{path}:{ln}: directive outside fn: {w}")
        if head == "sub":
            a, b = rest.split("==>>", 1) if "==>>" in rest else rest.split("=>", 1)
            fn["subs"].append((a.strip(), b.strip()))
        elif head == "attr":
            fn["attrs"].append(rest.strip())
        elif head == "ret":
            fn["ret"] = rest.strip()
        elif head == "trunc":
            fn["trunc"] = True
        elif head == "native":
            fn["native"].add(int(rest))
        elif head == "generics":
            fn["generics"] = rest.strip()
        elif head == "head":
            fn["head"] = rest.strip()
        elif head == "same":
            # in the impl of the function before it
            fn["same"] = True
        elif head == "opcall":
            fn["opcall"] = True
        elif head == "addarg":
            x, y = rest.split(" => ", 1)
            fn.setdefault("addarg", []).append((x.strip(), y.strip()))
        elif head == "guard":
            fn["guard"] = True
        elif head == "lift":
            # closures become functions: `lift PREFIX STATE TYPE`, followed by the contract every one of them gets
            pre, ty = rest.strip().split(" ", 1)
            fn["lift"] = {"prefix": pre, "type": ty, "text": [], "call": [], "proof": {}}
            cur = {"text": fn["lift"]["text"]}
        elif head == "liftcall":
            cur = {"text": fn["lift"]["call"]}
        elif head == "liftproof":
            k = int(rest)
            fn["lift"]["proof"][k] = []
            cur = {"text": fn["lift"]["proof"][k]}
        elif head == "members":
            cur = newsec({})
            fn["members"] = cur["text"]
        elif head == "closure":
            # the k-th closure of the body gets typed parameters and a contract
            cur = newsec({})
            fn.setdefault("closures", {})[int(rest)] = cur["text"]
        elif head == "unclosure":
            # the k-th closure of the body becomes a function of its own: `unclosure K ARGS`, followed by its signature
            # and contract; ARGS replace the closure in the call it is an argument of
            k, _, args = rest.strip().partition(" ")
            cur = newsec({})
            fn.setdefault("unclosures", {})[int(k)] = (args, cur["text"])
        elif head in ("loop", "start", "tail", "tailres", "before", "after", "end", "arm"):
            sec = newsec({"where": w})
            fn["sections"].append(sec)
            cur = sec
        else:
            raise SystemExit(f"{path}:{ln}: unknown directive {w}")
    return chunks, gsubs


class Source:
    cache = {}

    def __init__(self, root, rel):
        self.path = os.path.join(root, rel)
        try:
            self.text = open(self.path).read()
            self.inlined = 0
            try:
                text, self.inlined = inline.apply(rel, self.text)
                self.toks = lex(text)
                self.items = parse_items(self.toks, 0, len(self.toks))
                self.text = text
            except (LexError, AssertionError, IndexError, ValueError):
                self.inlined = 0
                self.toks = lex(self.text)
                self.items = parse_items(self.toks, 0, len(self.toks))
        except (OSError, LexError, AssertionError, IndexError) as e:
            raise Lost(f"cannot read or parse {rel}: {e!r}")

    def find(self, what):
        """'struct X', 'enum X', 'const X', 'type X', 'trait X', 'impl A for B' or a function 'f', 'T::f', '<A for B>::f'."""
        m = re.match(r"(struct|enum|const|static|type|trait|impl) (.*)", what)
        if m:
            k, n = m.group(1), m.group(2).replace(" ", "")
            r = [it for it in self.items if it.kind == k and (it.name or "").replace(" ", "") == n]
            if not r:
                raise Lost(f"{what} not found in {self.path}")
            return r[0]
        m = re.match(r"<(.*)>::(\w+)$", what)
        if m:
            owner, f = m.group(1).replace(" ", ""), m.group(2)
        elif "::" in what:
            owner, f = what.rsplit("::", 1)
        else:
            owner, f = None, what
        for it in self.items:
            if owner is None:
                if it.kind == "fn" and it.name == f:
                    return it
            elif it.kind in ("impl", "trait"):
                nm = it.name.replace(" ", "")
                base = re.sub(r"<.*>$", "", nm) if " for " not in it.name else nm
                # `for` is kept without spaces by the replace above
                if nm == owner or base == owner or it.name == owner:
                    for s in it.sub:
                        if s.kind == "fn" and s.name == f:
                            return s
            elif it.kind == "mod" and owner == it.name:
                for s in it.sub:
                    if s.kind == "fn" and s.name == f:
                        return s
        raise Lost(f"fn {what} not found in {self.path}")


NOOP = [["let", "_"], ]


def fingerprint(toks):
    """Shape of a function body: loops, branches and callees in order (names of locals and literals do not matter)."""
    out = []
    for k, t in enumerate(toks):
        if t.kind == "id" and t.s in ("for", "while", "loop", "match", "if", "return", "break", "continue", "else"):
            out.append(t.s)
        elif t.kind == "id" and k + 1 < len(toks) and toks[k + 1].s in ("(", "!") and t.s not in ("Some", "Ok", "Err", "_"):
            out.append(t.s + "()")
    return out


def tokmatch(toks, i, pat):
    if i + len(pat) > len(toks):
        return False
    return all(toks[i + k].s == p.s for k, p in enumerate(pat))


class FnEmitter:
    def __init__(self, src, item, ov, gsubs, unit):
        self.src, self.item, self.ov, self.unit = src, item, ov, unit
        self.toks = src.toks
        self.gsubs = gsubs
        self.pre = {}
        self.post = {}
        self.repl = {}
        self.drop = set()

    def add_pre(self, i, s):
        self.pre.setdefault(i, []).append(s)

    def add_pre_front(self, i, s):
        self.pre.setdefault(i, []).insert(0, s)

    def loops(self):
        a, e = self.item.body
        r = []
        for i in range(a + 1, e):
            t = self.toks[i]
            if t.kind == "id" and t.s in ("for", "while", "loop"):
                if t.s == "for" and self.toks[i + 1].s == "<":
                    continue
                # header end: first '{' at depth 0 after the keyword
                j = i + 1
                while self.toks[j].s != "{":
                    if self.toks[j].s in ("(", "["):
                        j = match_close(self.toks, j)
                    j += 1
                r.append((t.s, i, j, match_close(self.toks, j)))
        return r

    def stmt_positions(self, pat):
        a, e = self.item.body
        p = lex(pat)
        r = []
        for i in range(a + 1, e):
            if tokmatch(self.toks, i, p) and self.toks[i - 1].s in ("{", "}", ";", "=>"):
                r.append(i)
        return r

    def stmt_end(self, i):
        """index after the `;` (or block) ending the statement that starts at i."""
        a, e = self.item.body
        j = i
        blocky = self.toks[i].s in ("if", "match", "loop", "while", "for", "{", "unsafe")
        while j < e:
            s = self.toks[j].s
            if s in rustlex.OPEN:
                j = match_close(self.toks, j)
                if blocky and self.toks[j].s == "}" and self.toks[j + 1].s != "else":
                    return j + 1 if self.toks[j + 1].s != ";" else j + 2
            elif s == ";":
                return j + 1
            elif s in ("}",):
                return j
            j += 1
        return e

    def tail(self):
        """start of the last statement / tail expression of the body."""
        a, e = self.item.body
        i = a + 1
        last = i
        while i < e:
            last = i
            n = self.stmt_end(i)
            if n <= i:
                break
            i = n
        return last

    def emit(self):
        it, ov, toks = self.item, self.ov, self.toks
        if it.body is None:
            raise Lost(f"{ov['name']}: no body")
        a, e = it.body
        self.unit.fingerprints[ov["name"]] = fingerprint(toks[a:e]) + (["inlined()"] if self.src.inlined else [])
        if ov["name"] in self.unit.assume:
            for i in range(it.a, a):
                if toks[i].s in ("(", ",") and toks[i + 1].s == "mut":
                    self.drop.add(i + 1)  # a body's business
            self.signature(a)
            sig = self.span(it.a, a)
            sig += self.join_pre(a)
            return "#[verifier::external_body]\n" + "\n".join(x for x in ov["attrs"] if "external" in x) + sig + "\n{ unimplemented!() }"
        for i in range(it.a, a):
            if toks[i].s == "(" and toks[i + 1].s == "mut" and toks[i + 2].s == "self":
                # `mut self`: the body works on a mutable copy `vself` of the parameter
                self.drop.add(i + 1)
                self.add_pre(a + 1, "let mut vself = self;")
                for k in range(a + 1, e):
                    if toks[k].s == "self":
                        self.repl[k] = "vself"
                self.unit.rewrites["mut self => let mut vself = self"] = self.unit.rewrites.get("mut self => let mut vself = self", 0) + 1
        lifted = self.lift(a, e) if ov.get("lift") else ""
        lifted += self.contract_closures(a, e)
        self.destructuring(a, e)
        for x, y in ov.get("addarg", ()):
            # one more argument (ghost) for every call of x
            p = lex(x + "(")
            for i in range(a, e):
                if tokmatch(toks, i, p):
                    j = match_close(toks, i + len(p) - 1)
                    self.add_pre_front(j, y if toks[j - 1].s in ("(", ",") else ", " + y)
                    self.unit.rewrites[f"{x}(.., {y})"] = self.unit.rewrites.get(f"{x}(.., {y})", 0) + 1
        if ov.get("guard"):
            self.guards(a, e)
        loops = self.loops()
        loop_inv = {}
        for sec in ov["sections"]:
            w = sec["where"].split(" ", 2)
            text = "\n".join(sec["text"])
            if w[0] == "start":
                p0 = a + 1
                while p0 in self.drop and p0 < e:
                    p0 += 1
                self.add_pre(p0, text)
            elif w[0] == "end":
                self.add_pre(e, text)
            elif w[0] == "tail":
                self.add_pre(self.tail(), text)
            elif w[0] == "tailres":
                # the value of the body is named `vres` for the proof text
                self.add_pre(self.tail(), "let vres = ")
                self.add_pre(e, "; " + text + " vres")
            elif w[0] in ("before", "after", "arm"):
                rest = sec["where"].split(" ", 1)[1].strip()
                m = re.match(r"(?:#(\d+) )?(.*)$", rest)
                n = int(m.group(1) or 0)
                if w[0] == "arm":
                    # match arm expression: wrap it in a block that starts with the proof text
                    p = lex(m.group(2))
                    ps = [i for i in range(a, e) if tokmatch(toks, i, p) and toks[i - 1].s == "=>"]
                else:
                    ps = self.stmt_positions(m.group(2))
                if n >= len(ps):
                    raise Lost(f"{ov['name']}: anchor `{m.group(2)}` not found")
                if w[0] == "arm":
                    q = ps[n]
                    while toks[q].s not in (",", "}"):
                        if toks[q].s in rustlex.OPEN:
                            q = match_close(toks, q)
                        q += 1
                    self.add_pre(ps[n], "{ " + text)
                    self.add_pre_front(q, " }")
                else:
                    q = ps[n] if w[0] == "before" else self.stmt_end(ps[n])
                    if w[0] == "before" and toks[q - 1].s == "=>":
                        raise Lost(f"{ov['name']}: `before` on a match arm")
                    self.add_pre(q, text)
            elif w[0] == "loop":
                n = int(w[1])
                if n >= len(loops):
                    raise Lost(f"{ov['name']}: loop {n} not found")
                kind, kw, ob, cb = loops[n]
                where = w[2].strip() if len(w) > 2 else ""
                if where == "":
                    loop_inv[n] = text
                elif where == "start":
                    sec["_loopstart"] = True
                    self.add_pre(ob + 1, text)
                elif where == "end":
                    self.add_pre(cb, text)
                elif where == "after":
                    self.add_pre(cb + 1, text)
                elif where == "before":
                    self.add_pre(kw, text)
                else:
                    raise SystemExit("bad where " + sec["where"])
        for n, (kind, kw, ob, cb) in enumerate(loops):
            inv = loop_inv.get(n, "")
            if kind == "for" and n not in ov["native"]:
                k = kw + 1
                while not (toks[k].s == "in" and toks[k].kind == "id"):
                    if toks[k].s in ("(", "["):
                        k = match_close(toks, k)
                    k += 1
                # kw PAT in EXPR {
                pat = (kw + 1, k)
                expr = (k + 1, ob)
                self.unit.rewrites["for-desugar"] = self.unit.rewrites.get("for-desugar", 0) + 1
                m_inv, m_dec = split_clauses(inv)
                head = (f"let mut vit{n} = {{ {self.span(*expr)} }}.vinto(); let ghost vst{n} = vit{n}; let ghost mut vk{n}: int = 0; "
                        f"loop\n invariant_except_break vadv(vst{n}, vit{n}, vk{n}),\n invariant 0 <= vk{n},\n{m_inv}\n ensures !vst{n}.inf() && vk{n} == vst{n}.n(),\n"
                        f" {m_dec or 'decreases vst%d.n() - vk%d,' % (n, n)}\n"
                        f"{{ match vit{n}.next() {{ None => {{ break; }} Some({self.pat(*pat)}) => {{ {self.patlet(*pat)} proof {{ vk{n} = vk{n} + 1; }} ")
                self.repl[kw] = head
                for q in range(kw + 1, ob + 1):
                    self.drop.add(q)
                self.repl[cb] = "} } }"
            elif kind == "while" and toks[kw + 1].s == "let":
                # while let P = E {
                k = kw + 2
                while toks[k].s != "=":
                    if toks[k].s in ("(", "[", "{"):
                        k = match_close(toks, k)
                    k += 1
                self.unit.rewrites["while-let-desugar"] = self.unit.rewrites.get("while-let-desugar", 0) + 1
                pat = self.span(kw + 2, k)
                # `Some(&LIT)`: literal behind a reference pattern
                pat = re.sub(r"Some\s*\(\s*&\s*(\w+)\s*\)\s*$", lambda m: f"Some(vlit) if *vlit == {m.group(1)}" if m.group(1)[0].isdigit() else m.group(0), pat)
                self.repl[kw] = f"loop\n{inv}\n{{ match {self.span(k + 1, ob)} {{ {pat} => {{ "
                for q in range(kw + 1, ob + 1):
                    self.drop.add(q)
                self.repl[cb] = "} _ => { break; } } }"
            else:
                self.add_pre(ob, "\n" + inv + "\n")
        self.signature(a)
        if ov.get("trunc"):
            self.truncate_casts(a, e)
        if ov.get("opcall"):
            self.operator_calls(a, e)
        out = []
        for at in ov["attrs"]:
            out.append(at)
        out.append(self.span(it.a, it.b))
        return lifted + "\n".join(out)

    def destructuring(self, a, e):
        """`(x, *y) = E;` -> `let vd = E; x = vd.0; *y = vd.1;`"""
        toks = self.toks
        k = 0
        for i in range(a + 1, e):
            if toks[i].s == "(" and toks[i - 1].s in ("{", "}", ";"):
                c = match_close(toks, i)
                if toks[c + 1].s != "=" or c + 1 in self.drop:
                    continue
                parts, st, j = [], i + 1, i + 1
                while j <= c:
                    if j == c or toks[j].s == ",":
                        if j > st:
                            parts.append(self.span(st, j))
                        st = j + 1
                    elif toks[j].s in rustlex.OPEN:
                        j = match_close(toks, j)
                    j += 1
                self.repl[i] = f"let vd{k} ="
                self.drop.update(range(i + 1, c + 2))
                self.add_pre(self.stmt_end(i), " ".join(f"{p} = vd{k}.{n};" for n, p in enumerate(parts) if p.strip() != "_"))
                self.unit.rewrites["destructuring assignment"] = self.unit.rewrites.get("destructuring assignment", 0) + 1
                k += 1

    def find_closures(self, a, e):
        """(first `|`, parameters, body start, body end) of every closure in the body, in order"""
        toks, r = self.toks, []
        for i in range(a + 1, e):
            if toks[i].s != "|" or toks[i - 1].s not in ("(", ",", "=", "{", ";", "=>", "return", "move", ":"):
                continue
            params, j, st = [], i + 1, i + 1
            while True:
                if toks[j].s in ("|", ","):
                    if j > st:
                        params.append((st, j))
                    st = j + 1
                    if toks[j].s == "|":
                        break
                elif toks[j].s in rustlex.OPEN:
                    j = match_close(toks, j)
                elif toks[j].s == "<":
                    j = rustlex.skip_generics(toks, j)
                    continue
                j += 1
            b = q = j + 1
            if toks[b].s == "{":
                q = match_close(toks, b) + 1
            else:
                while toks[q].s not in (",", ")", "]", "}", ";"):
                    if toks[q].s in rustlex.OPEN:
                        q = match_close(toks, q)
                    q += 1
            r.append((i, params, b, q))
        return r

    def contract_closures(self, a, e):
        """`|PAT, ..| BODY`: typed parameters and a contract for the closure, whose patterns are bound in its body"""
        ann, un = self.ov.get("closures", {}), self.ov.get("unclosures", {})
        if not ann and not un:
            return ""
        cl = self.find_closures(a, e)
        if len(cl) != len(ann) + len(un):
            raise Lost(f"{self.ov['name']}: {len(cl)} closures")
        toks, out = self.toks, []
        for k, (i, params, b, q) in enumerate(cl):
            head = "\n".join(ann[k] if k in ann else un[k][1])
            head, _, fact = head.partition("\n=>>\n")     # what follows is proved where the closure is made: it is `vc` there
            op = head.index("|") if k in ann else head.index("(")
            names, depth, cur = [], 0, ""
            for c in head[op + 1:]:
                if c in "([<{":
                    depth += 1
                if c in ")]>}":
                    depth -= 1
                if depth < 0 or (depth == 0 and (c == "," or c == "|")):
                    if cur.strip():
                        names.append(cur.split(":")[0].strip())
                    cur = ""
                    if c != ",":
                        break
                else:
                    cur += c
            names = names[-len(params):]
            if len(names) != len(params):
                raise Lost(f"{self.ov['name']}: closure with {len(params)} parameters")
            lets = ""
            for (x, y), nm in zip(params, names):
                z = x
                while z < y and not (toks[z].s == ":" and all(toks[w].s not in rustlex.OPEN for w in range(x, z))):
                    z += 1
                pt = self.span(x, z).strip()
                if pt not in (nm, "_"):
                    lets += f"let {pt} = {nm}; "
            if k in ann:
                self.repl[i] = ("{ let vc = " if fact else "") + head + " { " + lets
                self.drop.update(range(i + 1, b))
                self.add_pre_front(q, " }" + ("; proof { " + fact + " } vc }" if fact else ""))
                n = "closure typed and under contract"
            else:
                out.append(head + "\n{ " + lets + self.span(b, q) + " }\n")
                self.repl[i] = un[k][0]
                self.drop.update(range(i + 1, q))
                n = "closure => function"
                self.closures = getattr(self, "closures", []) + [re.search(r"fn (\w+)", head).group(1)]
            self.unit.rewrites[n] = self.unit.rewrites.get(n, 0) + 1
        return "\n".join(out)

    def lift(self, a, e):
        """every closure `|m, s, c, maps| BODY` of the function becomes a function PREFIX_k and the closure expression
        `vtr(k)`; casts to and aliases of the function pointer type are dropped"""
        toks, lf = self.toks, self.ov["lift"]
        out, k, i = [], 0, a + 1
        self.closures = []
        while i < e:
            if toks[i].s == "type" and toks[i - 1].s in ("{", ";", "}"):
                q = self.stmt_end(i)
                self.drop.update(range(i, q))
                i = q
                continue
            if toks[i].s == "as" and toks[i + 1].s == "Func":
                q = rustlex.skip_generics(toks, i + 2)
                self.drop.update(range(i, q))
                i = q
                continue
            if toks[i].s == "|" and toks[i - 1].s in ("(", ",", ":", "="):
                params, j, st = [], i + 1, i + 1
                while True:
                    if toks[j].s in ("|", ","):
                        if j > st:
                            params.append((st, j))
                        st = j + 1
                        if toks[j].s == "|":
                            break
                    elif toks[j].s in rustlex.OPEN:
                        j = match_close(toks, j)
                    elif toks[j].s == "<":
                        j = rustlex.skip_generics(toks, j)
                        continue
                    j += 1
                b = j + 1
                q = b
                if toks[b].s == "{":
                    q = match_close(toks, b) + 1
                else:
                    while toks[q].s not in (",", ")", "]", "}", ";"):
                        if toks[q].s in rustlex.OPEN:
                            q = match_close(toks, q)
                        q += 1
                if len(params) != 4:
                    raise Lost(f"{self.ov['name']}: closure with {len(params)} parameters")
                names = []
                for n, (x, y) in enumerate(params):
                    w = [toks[z].s for z in range(x, y)]
                    mut = w[0] == "mut"
                    nm = w[1] if mut else w[0]
                    if nm == "_":
                        nm = "vp%d" % n
                    names.append((("mut " if mut else "") + nm, nm))
                tys = ["M", lf["type"], "char", "&TransitionMaps<M>"]
                text = "\n".join(lf["text"])
                for ph, v in (("$k", str(k)), ("$m", names[0][1]), ("$s", names[1][1]), ("$c", names[2][1]), ("$t", names[3][1])):
                    text = text.replace(ph, v)
                proof = "\n".join(lf["proof"].get(k, []))
                for ph, v in (("$m", names[0][1]), ("$s", names[1][1]), ("$c", names[2][1]), ("$t", names[3][1])):
                    proof = proof.replace(ph, v)
                body = self.span(b, q)
                out.append(f"fn {lf['prefix']}_{k}<M: Manager + 'static>(" + ", ".join(f"{n[0]}: {t}" for n, t in zip(names, tys))
                           + ") -> (res: (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>))\n" + text + "\n{ " + proof + " " + body + " }\n")
                self.repl[i] = f"vtr({k})"
                self.drop.update(range(i + 1, q))
                self.unit.rewrites["closure => function"] = self.unit.rewrites.get("closure => function", 0) + 1
                self.closures.append(f"{lf['prefix']}_{k}")
                k += 1
                i = q
                continue
            i += 1
        if lf["call"]:
            t = "\n".join(lf["call"])
            for ph, v in (("$m", "m"), ("$s", "s"), ("$c", "c"), ("$t", "t")):
                t = t.replace(ph, v)
            n = lf["prefix"].replace("tr_", "call_")
            out.append(f"fn {n}<M: Manager + 'static>(f: Tr<{lf['type']}, M>, m: M, s: {lf['type']}, c: char, t: &TransitionMaps<M>) -> (res: (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>))\n{t}\n"
                       + "{ match f.k { " + " ".join(f"{x} => {lf['prefix']}_{x}(m, s, c, t)," for x in range(k)) + " _ => vstd::pervasive::unreached() } }\n")
            self.closures.append(n)
        return "\n".join(out)

    def signature(self, a):
        it, ov, toks = self.item, self.ov, self.toks
        # signature: name the result
        ret = None
        for j in range(it.pclose + 1, a):
            if toks[j].s == "->":
                ret = j
                break
        if ret is not None:
            end = ret + 1
            while end < a and toks[end].s != "where":
                end += 1
            self.add_pre(ret + 1, f"({ov['ret']}:")
            self.add_pre_front(end, ")")
        spec = "\n".join(ov["spec"])
        self.pre.setdefault(a, []).append("\n" + spec + "\n")

    def join_pre(self, i):
        return "\n".join(self.pre.get(i, []))

    def widen_fields(self):
        """field visibility is dropped (every field becomes pub)"""
        toks = self.toks
        ob = next((i for i in range(self.item.a, self.item.b) if toks[i].s == "{"), None)
        if ob is None:
            return
        i = ob + 1
        e = match_close(toks, ob)
        expect = True
        while i < e:
            if expect and toks[i].s == "#":
                i = match_close(toks, i + 1) + 1
                continue
            if expect and toks[i].s == "pub":
                self.drop.add(i)
                i += 1
                if toks[i].s == "(":
                    c = match_close(toks, i)
                    self.drop.update(range(i, c + 1))
                    i = c + 1
                continue
            if expect and toks[i].kind == "id":
                self.add_pre(i, "pub")
                expect = False
            if toks[i].s in rustlex.OPEN:
                i = match_close(toks, i)
            elif toks[i].s == "<":
                i = rustlex.skip_generics(toks, i)
                continue
            elif toks[i].s == ",":
                expect = True
            i += 1

    def truncate_casts(self, a, e):
        """`x as u64` -> `(#[verifier::truncate] (x as u64))`: same value, tells Verus the cast is meant to wrap."""
        toks = self.toks
        start = {}
        for i in range(a, e):
            if toks[i].kind == "id" and toks[i].s == "as" and toks[i + 1].s in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
                j = i - 1
                if toks[j].kind == "num":
                    continue
                while True:
                    s = toks[j].s
                    if s in rustlex.CLOSE:
                        d = 0
                        while True:
                            if toks[j].s in rustlex.CLOSE:
                                d += 1
                            elif toks[j].s in rustlex.OPEN:
                                d -= 1
                                if d == 0:
                                    break
                            j -= 1
                        # call or index: continue with the callee
                        if toks[j - 1].kind == "id" and toks[j - 1].s not in ("return", "in", "if", "match", "as", "else", "while") or toks[j - 1].s in (")", "]"):
                            j -= 1
                            continue
                    if toks[j - 1].s in (".", "::"):
                        j -= 2
                        continue
                    break
                if toks[j - 1].s == "as" and j - 1 in start:
                    j = start[j - 1]     # x as u16 as u64
                while toks[j - 1].s in ("!",) or (toks[j - 1].s in ("-", "*", "&") and (toks[j - 2].kind == "p" and toks[j - 2].s not in (")", "]"))):
                    j -= 1
                start[i] = j
                self.add_pre_front(j, "(#[verifier::truncate] (")
                self.pre.setdefault(i + 2, []).insert(0, "))")
                self.unit.rewrites["truncating-cast attribute"] = self.unit.rewrites.get("truncating-cast attribute", 0) + 1

    OPS = {"+": "vop_add", "-": "vop_sub", "*": "vop_mul", "/": "vop_div", "<<": "vop_shl", ">>": "vop_shr"}

    def guards(self, a, e):
        """`match X { P if G => E, _ => D }` -> `match X { P => { if G { E } else { D } } _ => D }`"""
        toks = self.toks

        def arm_end(i):
            while i < e and toks[i].s not in (",", "}"):
                i = match_close(toks, i) if toks[i].s in rustlex.OPEN else i
                i += 1
            return i
        for i in range(a, e):
            if toks[i].s == "if" and toks[i].kind == "id" and toks[i - 1].s not in ("{", "}", ";", "=", "else", "=>", "(", ","):
                k = i + 1
                while toks[k].s not in ("=>", "{", ";"):
                    k = match_close(toks, k) if toks[k].s in rustlex.OPEN else k
                    k += 1
                if toks[k].s != "=>":
                    continue
                m = arm_end(k + 1)
                n = m + 1
                if not (toks[m].s == "," and toks[n].s == "_" and toks[n + 1].s == "=>"):
                    raise Lost(f"{self.ov['name']}: match guard")
                d = self.span(n + 2, arm_end(n + 2))
                self.repl[i] = "=> { if"
                self.repl[k] = "{"
                self.add_pre_front(m, "} else { " + d + " } }")
                self.unit.rewrites["match guard => if"] = self.unit.rewrites.get("match guard => if", 0) + 1

    def operator_calls(self, a, e):
        """`&x + &y` and `x + &y` on paths of names: the trait call it stands for, `x.vop_add(&y)`; `-x` with `x` a
        name after `&` or `(`: `x.vop_neg()`."""
        toks = self.toks

        def path(i):
            if toks[i].kind != "id" or toks[i].s in ("match", "if", "return", "in", "mut", "let"):
                return None
            i += 1
            while toks[i].s == "." and toks[i + 1].kind == "id" and toks[i + 2].s != "(":
                i += 2
            return i
        i = a + 1
        while i < e:
            p = toks[i - 1].s
            if p in ("=", "(", ",", "{", "return", "=>", ":", ";", "match", "if") and (toks[i].s == "&" or toks[i].kind == "id"):
                amp = toks[i].s == "&"
                st = i + 1 if amp else i
                if amp and toks[st].s == "mut":
                    i += 1
                    continue
                en = path(st)
                if en is not None and toks[en].s in self.OPS and toks[en + 1].s == "&":
                    en2 = path(en + 2)
                    if en2 is not None and toks[en2].s in (",", ";", ")", "}"):
                        if amp:
                            self.drop.add(i)
                        self.repl[en] = "." + self.OPS[toks[en].s] + "("
                        self.pre.setdefault(en2, []).insert(0, ")")
                        self.unit.rewrites["operator on references => method call"] = self.unit.rewrites.get("operator on references => method call", 0) + 1
                        i = en2
                        continue
            i += 1

    def pat(self, a, b):
        # `&x` -> bind the reference, dereference in the body
        if self.toks[a].s == "&" and b == a + 2:
            return "vref_" + self.toks[a + 1].s
        return self.span(a, b)

    def patlet(self, a, b):
        if self.toks[a].s == "&" and b == a + 2:
            return f"let {self.toks[a + 1].s} = *vref_{self.toks[a + 1].s};"
        return ""

    def span(self, a, b):
        toks = self.toks
        out = []
        i = a
        subs = [(lex(x), y, x) for x, y in self.ov["subs"]] + [(lex(x), y, x) for x, y in self.gsubs]
        while i < b:
            if i in self.drop:
                i += 1
                continue
            for s in self.pre.get(i, []):
                out.append(s)
            if i in self.repl:
                out.append(self.repl[i])
                i += 1
                continue
            for p, y, x in subs:
                if p and tokmatch(toks, i, p) and i + len(p) <= b:
                    # splices inside a substituted span are kept in front of it
                    for q in range(i + 1, i + len(p)):
                        for s in self.pre.get(q, []):
                            out.append(s)
                    out.append(y)
                    self.unit.rewrites[f"{x} => {y}"] = self.unit.rewrites.get(f"{x} => {y}", 0) + 1
                    i += len(p)
                    break
            else:
                t = toks[i].s
                if re.fullmatch(r'b"[^"\\\\]*"', t):
                    t = "[" + ", ".join("%du8" % ord(c) for c in t[2:-1]) + "]"
                    self.unit.rewrites["byte string => array"] = self.unit.rewrites.get("byte string => array", 0) + 1
                out.append(t)
                i += 1
        return join(out)


def join(parts):
    s = []
    for p in parts:
        s.append(p)
        s.append("\n" if p in (";", "{", "}") else " ")
    return "".join(s)


def split_clauses(inv):
    """loop clause text for a desugared `for`: bare invariant expressions, optionally followed by `decreases ...`"""
    m = re.search(r"^\s*decreases\b", inv, re.M)
    if m:
        return inv[:m.start()], inv[m.start():]
    return inv, ""


def verus_name(c):
    """the name Verus gives an emitted function: `f` or `Type::f`"""
    n = c["name"]
    last = n.split("::")[-1]
    for x, y in c.get("subs", []):
        m, m2 = re.match(r"fn (\w+)", x), re.match(r"fn (\w+)", y)
        if m and m2 and m.group(1) == last:
            last = m2.group(1)
    if c["kind"] == "constfn" and not c.get("head"):
        return c["fname"]
    if c["kind"] == "constfn":
        last = c["fname"]
    if "::" not in n:
        return last
    owner = n[1:n.rindex(">::")] if n.startswith("<") else n.rsplit("::", 1)[0]
    owner = re.split(r"\bfor\b", owner)[-1].strip().lstrip("&").strip()
    if c.get("head"):
        owner = re.split(r"\bfor\b", re.sub(r"^impl\s*(<[^>]*>)?", "", c["head"]))[-1].strip().split(" where ")[0]
    return re.sub(r"<.*", "", owner).strip() + "::" + last


class Unit:
    def __init__(self, name, overlay_path, root, assume=()):
        self.name = name
        self.assume = set(assume)   # functions whose contract is assumed because their body is out of reach
        self.root = root
        self.overlay_path = overlay_path
        self.rewrites = {}
        self.fingerprints = {}
        self.fnmap = []        # (first line, last line, fn name) in the generated file
        self.fns = []
        self.lost = {}
        self.module = None

    def build(self):
        chunks, gsubs = parse_overlay(self.overlay_path)
        sources = {}

        def src(rel):
            if rel not in sources:
                sources[rel] = Source(self.root, rel)
                if sources[rel].inlined:
                    self.rewrites["new function or constant => its text"] = self.rewrites.get("new function or constant => its text", 0) + sources[rel].inlined
            return sources[rel]
        lines = []

        def put(text):
            start = len(lines) + 1
            lines.extend(text.split("\n"))
            return start, len(lines)
        for c in chunks:
            if c["kind"] == "raw":
                put("\n".join(c["text"]))
            elif c["kind"] == "module":
                self.module = c["name"]
                self.fns, self.fnmap = [], []
                self.fingerprints = {}
                put(f"pub mod {c['name']} {{\nuse super::*;")
            elif c["kind"] == "item":
                s = src(c["file"])
                try:
                    it = s.find(c["what"])
                except Lost:
                    if not c["what"].startswith("const ") or c["text"]:
                        raise
                    continue            # a constant that is gone: whatever still names it does not compile
                dummy = {"name": c["what"], "subs": [], "sections": [], "attrs": []}
                em = FnEmitter(s, it, dummy, gsubs, self)
                if it.kind == "struct":
                    em.widen_fields()
                put("\n".join(c["text"]) + "\n" + em.span(it.a, it.b))
            elif c["kind"] == "constfn":
                s = src(c["file"])
                owner, cn = c["name"].rsplit("::", 1)
                norm = owner.replace(" ", "").strip()
                norm = norm[1:-1] if norm.startswith("<") else norm
                ks = [x for it in s.items if it.kind in ("impl", "trait") and (it.name.replace(" ", "") == norm or it.kind == "impl" and it.trait is None and re.sub(r"<.*>$", "", it.name.replace(" ", "")) == norm) for x in it.sub if x.kind == "const" and x.name == cn]
                if not ks:
                    raise Lost(f"const {c['name']} not found in {c['file']}")
                em = FnEmitter(s, ks[0], c, gsubs, self)
                i = ks[0].a
                while s.toks[i].s != ":":
                    i += 1
                j = i
                while s.toks[j].s != "=":
                    j += 1
                self.rewrites["associated constant => function"] = self.rewrites.get("associated constant => function", 0) + 1
                self.fns.append({"name": c["name"], "file": c["file"], "vname": self.qual(verus_name(c)), "also": []})
                self.fingerprints[c["name"]] = fingerprint(s.toks[j + 1:ks[0].b - 1])
                init = "\n".join(x for sec in c["sections"] for x in sec["text"]) + " " + em.span(j + 1, ks[0].b - 1)
                if c.get("head"):
                    st, en = put(c["head"] + " {\n" + "\n".join(c.get("members", [])) + f"\nfn {c['fname']}() -> (res: {em.span(i + 1, j)})\n" + "\n".join(c["spec"]) + "\n{ " + init + " }\n}")
                else:
                    st, en = put(f"pub fn {c['fname']}() -> (res: {em.span(i + 1, j)})\n" + "\n".join(c["spec"]) + "\n{ " + init + " }")
                self.fnmap.append((st, en, c["name"]))
            elif c["kind"] == "enumx":
                s = src(c["file"])
                it = s.find("enum " + c["name"])
                i = it.a
                while s.toks[i].s != "{":
                    i += 1
                vs, k = [], i + 1
                while s.toks[k].s != "}":
                    v, d = s.toks[k].s, []
                    k += 1
                    if s.toks[k].s == "=":
                        k += 1
                        while s.toks[k].s not in (",", "}"):
                            d.append(s.toks[k].s)
                            k += 1
                    if s.toks[k].s not in (",", "}") or not d:
                        raise Lost(f"enum {c['name']}: a variant without a discriminant")
                    vs.append((v, "".join(d)))
                    if s.toks[k].s == ",":
                        k += 1
                self.rewrites["enum discriminants => function"] = self.rewrites.get("enum discriminants => function", 0) + 1
                self.fns.append({"name": c["name"], "file": c["file"], "vname": self.qual(c["fname"]), "also": []})
                self.fingerprints[c["name"]] = ["enum"]
                put("pub enum " + c["name"] + " { " + ", ".join(v for v, _ in vs) + " }")
                st, en = put(f"pub fn {c['fname']}(v: {c['name']}) -> (res: isize)\n" + "\n".join(c["spec"]) + "\n{ match v { " + " ".join(f"{c['name']}::{v} => {d}," for v, d in vs) + " } }")
                self.fnmap.append((st, en, c["name"]))
            elif c["kind"] == "constx":
                s = src(c["file"])
                it = s.find("const " + c["name"])
                em = FnEmitter(s, it, c, gsubs, self)
                i = it.a
                while s.toks[i].s != ":":
                    i += 1
                j = i
                while s.toks[j].s != "=":
                    j += 1
                self.rewrites["constant => `exec const` with a contract"] = self.rewrites.get("constant => `exec const` with a contract", 0) + 1
                self.fns.append({"name": c["name"], "file": c["file"], "vname": self.qual(verus_name(c)), "also": []})
                self.fingerprints[c["name"]] = fingerprint(s.toks[j + 1:it.b - 1])
                init = "\n".join(x for sec in c["sections"] for x in sec["text"]) + " " + em.span(j + 1, it.b - 1)
                st, en = put(f"pub exec const {c['name']}: {em.span(i + 1, j)}\n" + "\n".join(c["spec"]) + "\n{ " + init + " }")
                self.fnmap.append((st, en, c["name"]))
            elif c["kind"] == "fn":
                s = src(c["file"])
                self.fns.append({"name": c["name"], "file": c["file"], "vname": self.qual(verus_name(c)), "also": []})
                try:
                    it = s.find(c["name"])
                except Lost as x:
                    self.lost[c["name"]] = str(x)
                    continue
                em = FnEmitter(s, it, c, gsubs, self)
                try:
                    body = em.emit()
                except Lost as x:
                    self.lost[c["name"]] = str(x)
                    self.assume.add(c["name"])
                    em = FnEmitter(s, it, c, gsubs, self)
                    body = em.emit()
                if it.impl is not None:
                    h = it.impl
                    hs = {"name": c["name"], "subs": c["subs"], "sections": [], "attrs": []}
                    hem = FnEmitter(s, h, hs, gsubs, self)
                    head = c.get("head") or hem.span(h.head[0], h.head[1])
                    others = ""
                    if h.kind == "impl" and h.trait is not None and not c.get("head"):
                        others = "\n".join(hem.span(x.a, x.b) for x in h.sub if x.kind == "type")
                    if c.get("same"):
                        while not lines[-1]:
                            lines.pop()
                        assert lines.pop() == "}"
                        body = "\n".join(c.get("members", [])) + "\n" + body + "\n}"
                    else:
                        others += "\n".join(c.get("members", []))
                        body = head + " {\n" + others + "\n" + body + "\n}"
                self.fns[-1]["also"] = [self.qual(x) for x in getattr(em, "closures", [])]
                st, en = put(body)
                self.fnmap.append((st, en, c["name"]))
        return "\n".join(lines) + "\n"

    def qual(self, n):
        return f"{self.module}::{n}" if self.module else n

    def fn_at(self, line):
        for a, b, n in self.fnmap:
            if a <= line <= b:
                return n
        return None
