"""Functions and constants that a change has brought into a file (they are not in units/names.json, recorded on the
unchanged tree) have no contract; a call of such a function is replaced by its body and the name of such a constant by
its value, so that the contract of the caller is still proved against all of the text that runs. What cannot be
replaced word for word is left as it is: the verifier then reports a function it does not know."""
import json, os, re, zlib
from rustlex import lex, parse_items, match_close, skip_generics, LexError, OPEN

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units", "names.json")
NUMERIC = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64"}


def owned(items, owner=None):
    """(owner, item) for every function and constant outside of tests; owner: name of the impl or trait or None"""
    for it in items:
        if it.kind in ("impl", "trait"):
            yield from owned(it.sub, it.name.replace(" ", ""))
        elif it.kind == "mod":
            yield from owned(it.sub, owner)
        elif it.kind in ("fn", "const"):
            yield owner, it


def names(text):
    toks = lex(text)
    return sorted({f"{o or ''}::{it.name}" for o, it in owned(parse_items(toks, 0, len(toks)))})


STD = set("len first last get push pop insert remove take next min max abs split find map filter fold count iter clone items contains is_empty "
          "is_some is_none is_ok is_err unwrap as_str as_ref as_mut to_string to_vec into_iter chars cmp eq swap replace extend join append".split())


def record(repo):
    r, called = {}, set()
    for d, _, fs in os.walk(os.path.join(repo, "nanvm-lib/src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                try:
                    r[os.path.relpath(p, repo)] = names(open(p).read())
                    ts = lex(open(p).read())
                    called |= {x.s for w, x, y in zip(ts, ts[1:], ts[2:]) if w.s == "." and y.s == "(" and x.kind == "id"}
                except (LexError, AssertionError, IndexError):
                    pass
    r[""] = sorted(called)
    json.dump(r, open(BASE, "w"), indent=0, sort_keys=True)


def commas(toks, a, b):
    """the parts of [a, b) between commas"""
    out, d, i, s = [], 0, a, a
    while i < b:
        t = toks[i]
        if t.kind == "p":
            if t.s in OPEN:
                i = match_close(toks, i)
            elif t.s == "<":
                d += 1
            elif t.s == ">" and d:
                d -= 1
            elif t.s == ">>" and d:
                d -= 2
            elif t.s == "," and d <= 0:
                out.append((s, i))
                s = i + 1
        i += 1
    if s < b:
        out.append((s, b))
    return out


def args(toks, a, b):
    """the arguments of a call: no `<` as a bracket, but commas of a closure's parameters do not count"""
    out, i, s, bar = [], a, a, False
    while i < b:
        t = toks[i]
        if t.kind == "p":
            if t.s in OPEN:
                i = match_close(toks, i)
            elif t.s == "|" and (bar or i == s or toks[i - 1].s in ("move", "(", ",", "=")):
                bar = not bar
            elif t.s == "::" and i + 1 < b and toks[i + 1].s == "<":
                i = skip_generics(toks, i + 1) - 1
            elif t.s == "," and not bar:
                out.append((s, i))
                s = i + 1
        i += 1
    if s < b:
        out.append((s, b))
    return out


def closure(toks, a, s):
    """can there be a closure?"""
    return any(t.s in ("|", "||") and (k == 0 or toks[a + k - 1].s in ("(", ",", "=", "=>", "return", "move", "{", ";")) for k, t in enumerate(toks[a:s]))


def one_way(text):
    """`if C { …; return X; } rest` => `if C { …; X } else { rest }`, the same for a `return X;` at the end"""
    toks = lex(text)
    i, start, n = 0, True, len(toks)

    def value(a, b):
        """the value of a block's tokens, when all they do at the end is to return it"""
        if b > a and toks[b - 1].s == ";":
            b -= 1
        k, at = a, None
        while k < b:
            if toks[k].s == "return":
                at = k
                break
            k = match_close(toks, k) + 1 if toks[k].kind == "p" and toks[k].s in OPEN else k + 1
        if at is None or at + 1 >= b:
            return None
        k = at
        while k < b:
            if toks[k].s == ";":
                return None
            k = match_close(toks, k) + 1 if toks[k].kind == "p" and toks[k].s in OPEN else k + 1
        return text[toks[a].a:toks[at].a] + text[toks[at].b:toks[b - 1].b]
    while i < n:
        t = toks[i]
        if start and t.s == "return":
            v = value(i, n)
            return text if v is None else text[:t.a] + v
        if start and t.s == "if":
            o = i + 1
            while toks[o].s != "{":
                o = match_close(toks, o) + 1 if toks[o].kind == "p" and toks[o].s in OPEN else o + 1
            c = match_close(toks, o)
            if c + 1 < n and toks[c + 1].s != "else":
                v = value(o + 1, c)
                if v is not None:
                    return text[:toks[o].b] + " " + v + " } else { " + one_way(text[toks[c].b:]) + " }"
        if t.kind == "p" and t.s in OPEN:
            i = match_close(toks, i)
            start = toks[i].s == "}"
        else:
            start = t.s == ";"
        i += 1
    return text


def result(toks, it):
    """the tokens of the result type"""
    a = it.body[0]
    if toks[it.pclose + 1].s != "->":
        return []
    return [t.s for t in toks[it.pclose + 2:next((i for i in range(it.pclose, a) if toks[i].s == "where"), a)]]


def error(r):
    """the error of a result type"""
    if "Result" in r and r[-1] == ">":
        d, at = 0, None
        for k, x in enumerate(r[:-1]):
            d += (x in ("<", "(", "[")) - (x in (">", ")", "]")) - 2 * (x == ">>")
            at = k if x == "," and d == 1 else at
        return r[:r.index("Result") + 1] if at is None else r[at + 1:-1]
    return r


def head(toks, i, a):
    """the first token of the expression or statement the `{` at i belongs to"""
    j = i - 1
    while j > a:
        t = toks[j]
        if t.kind == "p" and t.s in (")", "]", "}"):
            o = back(toks, j)
            if t.s == "}" and toks[j + 1].s not in ("else", "{", "."):
                return j + 1
            j = o - 1
            continue
        if t.kind == "p" and t.s in (";", "{", "(", "[", ",", "=>"):
            return j + 1
        j -= 1
    return j + 1


def back(toks, j):
    d = 0
    while True:
        if toks[j].kind == "p":
            d += (toks[j].s in (")", "]", "}")) - (toks[j].s in ("(", "[", "{"))
        if d == 0:
            return j
        j -= 1


def tail(toks, s, c, it):
    """is the expression from s to c what the function returns?"""
    a, e = it.body
    while True:
        if toks[s - 1].s == "return":
            return toks[c + 1].s in (";", "}", ",")
        if toks[s - 1].s not in ("{", "}", ";", "=>") or toks[s - 1].kind != "p":
            return False
        n = c + 1
        if toks[n].s == "," and toks[s - 1].s == "=>" or toks[n].s == "}" or toks[s - 1].s in ("=>", "}") and toks[c].s == "}":
            d, j = 0, n
            while d == 0:                       # to the end of the block or of the match
                if toks[j].kind == "p":
                    if toks[j].s == "}":
                        break
                    if toks[j].s in OPEN:
                        if toks[s - 1].s != "=>":
                            return False
                        j = match_close(toks, j)
                if toks[s - 1].s != "=>" and j > n:
                    return False
                j += 1
            if j == e:
                return True
            o = back(toks, j)
            if o <= a:
                return False
            h = head(toks, o, a)
            w = toks[h].s
            if toks[s - 1].s == "=>":
                if w != "match" and not (w == "return" and toks[h + 1].s == "match"):
                    return False
            elif w not in ("if", "else", "return", "match", "unsafe", "{") and not (toks[o - 1].s == "=>"):
                return False
            elif w == "match":
                return False
            if toks[o - 1].s == "=>":
                s, c = o, j
                continue
            if w == "return":
                return True
            if w == "else":
                while toks[h].s == "else":
                    h = head(toks, back(toks, h - 1), a)
            while toks[j + 1].s == "else":      # the other branches
                j += 2
                while toks[j].s != "{":
                    j = match_close(toks, j) + 1 if toks[j].s in OPEN and toks[j].kind == "p" else j + 1
                j = match_close(toks, j)
            s, c = h, j
            continue
        return False


class Helper:
    """a new function that can be replaced by its body"""

    def __init__(self, text, toks, owner, it):
        self.owner, self.name = owner, it.name
        a, e = it.body
        own = one_way(text[toks[a].b:toks[e].a])
        self.text, self.toks = own, lex(own)
        self.body = (0, len(self.toks))
        body = self.toks
        if any(t.s in ("await", "fn", "impl", "macro_rules") for t in body):
            raise ValueError("leaves early")
        self.early = {t.s for t in body} & {"return", "?"}
        if self.early and closure(body, 0, len(body)):
            raise ValueError("a closure, perhaps")
        self.returns = result(toks, it)
        if any(t.s == it.name and t.kind == "id" for t in body):
            raise ValueError("calls itself")
        gen = set()
        if it.popen > it.fn_kw + 2:
            gen = {t.s for t in toks[it.fn_kw + 3:it.popen - 1] if t.kind == "id"}

        def typable(ts):
            return not any(t.s in gen or t.s in ("impl", "dyn") or t.kind == "life" or t.s.startswith("'") for t in ts)

        def plain(ts):
            # a reference may be coerced, a number's literals take their type from here; other types are inferred
            return ts[0].s == "&" and len(ts) <= 4 or any(t.s in NUMERIC for t in ts)
        self.recv, self.params = None, []
        for k, (x, y) in enumerate(commas(toks, it.popen + 1, it.pclose)):
            p = [t.s for t in toks[x:y]]
            if k == 0 and p in (["self"], ["mut", "self"], ["&", "self"], ["&", "mut", "self"]):
                self.recv = " ".join(p)
                continue
            mut = p[0] == "mut"
            if mut:
                x += 1
            if toks[x].kind != "id" or toks[x + 1].s != ":" or toks[x].s in ("self", "_"):
                raise ValueError("pattern")
            self.params.append((toks[x].s, mut, text[toks[x + 2].a:toks[y - 1].b] if typable(toks[x + 2:y]) and plain(toks[x + 2:y]) else None))
        self.ret = None
        r = list(range(it.pclose + 1, a))
        if r and toks[r[0]].s == "->":
            w = next((i for i in r if toks[i].s == "where"), a)
            ts = toks[r[0] + 1:w]
            if typable(ts) and any(t.s in NUMERIC for t in ts):
                self.ret = text[ts[0].a:ts[-1].b]
        self.single = body and not any(t.s in (";", "let") for t in self._top(0, len(body))) and body[0].s != "if"
        self.has_self = any(t.s == "self" for t in body)

    def _top(self, a, e):
        i = a
        while i < e:
            yield self.toks[i]
            i = match_close(self.toks, i) + 1 if self.toks[i].s in OPEN and self.toks[i].kind == "p" else i + 1

    def expand(self, recv, given, stmt):
        """the text for a call with this receiver and these arguments"""
        if len(given) != len(self.params):
            raise ValueError("arguments")
        binds = [(n, m, ty, g) for (n, m, ty), g in zip(self.params, given) if m or g != n]
        this, body = None, ""
        if self.recv and recv != "self":
            this = "vthis%d" % (zlib.crc32((self.name + recv).encode()) % 1000)
            g = {"self": recv, "mut self": recv, "& self": "&" + recv, "& mut self": "&mut " + recv}[self.recv]
            binds.insert(0, (this, self.recv == "mut self", None, g))
        elif self.recv == "mut self":
            raise ValueError("mut self")
        prev = None
        for t in self.toks[slice(*self.body)]:
            if prev is not None:
                body += self.text[prev.b:t.a]
            body += this if t.s == "self" and this else t.s
            prev = t
        lets = ""
        if binds:
            pat = ["mut " + n if m else n for n, m, _, _ in binds]
            if len(binds) == 1:
                n, m, ty, g = binds[0]
                lets = f"let {pat[0]}{': ' + ty if ty else ''} = {g};"
            elif all(ty for _, _, ty, _ in binds):
                lets = f"let ({', '.join(pat)}): ({', '.join(ty for _, _, ty, _ in binds)}) = ({', '.join(g for _, _, _, g in binds)});"
            else:
                lets = f"let ({', '.join(pat)}) = ({', '.join(g for _, _, _, g in binds)});"
        if self.ret and not stmt:
            return "({ " + lets + f" let vin: {self.ret} = " + ("{ " + body + " }" if not self.single else body) + "; vin })"
        if not lets and self.single:
            return "(" + body + ")"
        b = "{ " + lets + " " + body + " }"
        return b if stmt else "(" + b + ")"


def apply(rel, text):
    """-> (text, number of replacements)"""
    if not os.path.exists(BASE):
        return text, 0
    base_ = json.load(open(BASE))
    known, taken = base_.get(rel), STD | set(base_.get("", ()))
    if known is None:
        return text, 0
    known, n = set(known), 0
    toks = lex(text)
    new = [(o, it) for o, it in owned(parse_items(toks, 0, len(toks))) if f"{o or ''}::{it.name}" not in known]
    if not new:
        return text, 0
    for _ in range(200):
        toks = lex(text)
        items = parse_items(toks, 0, len(toks))
        all_ = list(owned(items))
        helpers, consts = [], []
        for o, it in all_:
            if f"{o or ''}::{it.name}" in known:
                continue
            try:
                if it.kind == "fn" and it.body:
                    helpers.append(Helper(text, toks, o, it))
                elif it.kind == "const":
                    consts.append((o, it.name, constant(text, toks, it)))
            except (ValueError, IndexError):
                pass
        done = False
        # a new function that has nothing of the kind left in it first
        order = sorted((x for x in all_ if x[1].kind == "fn" and x[1].body), key=lambda x: f"{x[0] or ''}::{x[1].name}" in known)
        for o, it in order:
            s = site(text, toks, it, o, helpers, consts, taken)
            if s:
                a, b, r = s
                text = text[:a] + r + text[b:]
                n += 1
                done = True
                break
        if not done:
            break
    return text, n


def constant(text, toks, it):
    i = it.a
    while toks[i].s != ":":
        i += 1
    j = i
    while toks[j].s != "=":
        j += 1
    ty, ex = toks[i + 1:j], toks[j + 1:it.b - 1]
    if len(ty) == 1 and ty[0].s in NUMERIC - {"f64"}:
        out = ""
        for t in ex:
            out += " " + (t.s + ty[0].s if t.kind == "num" and not re.search(r"[ui](8|16|32|64|128|size)$", t.s) else t.s)
        return "((" + out.strip() + ") as " + ty[0].s + ")" if len(ex) > 1 else out.strip()
    if len(ex) == 1 and ex[0].kind in ("str", "char", "num"):
        return ex[0].s
    raise ValueError("constant")


def base(o):
    return re.sub(r"<.*>$", "", o) if o and "for" not in o else o


def site(text, toks, it, owner, helpers, consts, taken):
    """the first place in the function to replace: (from, to, text)"""
    a, e = it.body
    for i in range(a + 1, e):
        t = toks[i]
        if t.kind != "id":
            continue
        p1, p2, p3 = toks[i - 1].s, toks[i - 2].s, toks[i - 3].s
        for o, n, v in consts:
            if t.s == n and toks[i + 1].s not in ("(", "::", "!", ":") and p1 not in (".", "let", "const"):
                if o is None and p1 != "::":
                    return t.a, t.b, v
                if o is not None and p1 == "::" and (p2 == "Self" and o == owner or p2 == base(o)) and p3 != "::":
                    return toks[i - 2].a, t.b, v
        if toks[i + 1].s != "(" or p1 == "fn":
            continue
        for h in helpers:
            if h.name != t.s or h.name == it.name:
                continue
            c = match_close(toks, i + 1)
            given = [text[toks[x].a:toks[y - 1].b] for x, y in args(toks, i + 2, c)]
            recv = None
            if h.owner is None and h.recv is None and p1 not in (".", "::"):
                s = i
            elif h.owner is not None and h.recv is None and p1 == "::" and p3 != "::" and owner is not None and base(h.owner) == base(owner) and p2 in ("Self", base(h.owner)):
                s = i - 2
            elif h.owner is not None and h.recv is not None and p1 == ".":
                s = i - 2
                if toks[s].kind != "id":
                    continue
                while toks[s - 1].s == "." and toks[s - 2].kind == "id":
                    s -= 2
                if toks[s - 1].s in (".", "::"):
                    continue
                recv = text[toks[s].a:toks[i - 2].b]
                if (recv != "self" or base(h.owner) != base(owner or "")) and h.name in taken:
                    continue
                if recv == "self" and base(h.owner) != base(owner or ""):
                    continue
                if recv != "self" and any(x.s == "Self" for x in h.toks[slice(*h.body)]) and base(h.owner) != base(owner or ""):
                    continue
            else:
                continue
            if h.early:
                r = result(toks, it)
                if not (h.returns == r and tail(toks, s, c, it)) and not (
                        h.early == {"?"} and toks[c + 1].s == "?" and error(r) == error(h.returns) and not closure(toks, a, s)):
                    continue
            stmt = toks[s - 1].s in (";", "{", "}") and toks[c + 1].s in (";", "}")
            try:
                return toks[s].a, toks[c].b, h.expand(recv, given, stmt)
            except ValueError:
                continue
    return None
