"""Falsifiers for the parser, its paths and its modules (see fals.py). The oracles are written from the
properties: a recursive-descent reading of the tokens of fals.lex, and paths as a walk over their parts."""
from fals import enc, expect, lex, literal


# -------------------------------------------------------------------------------------------- paths
def walk(absolute, parts, more):
    parts = list(parts)
    for p in more:
        if p in ("", "."):
            continue
        if p != "..":
            parts.append(p)
        elif parts and parts[-1] != "..":
            parts.pop()
        elif not absolute:
            parts.append("..")
    return parts


def norm(p):
    a = p.startswith("/")
    return ("/" if a else "") + "/".join(walk(a, [], p.split("/")))


def join(a, b):
    ab = a.startswith("/")
    return ("/" if ab else "") + "/".join(walk(ab, walk(ab, [], a.split("/")), b.split("/")))


def resolve(frm, to):
    i = frm.rfind("/")
    return join("/" if i == 0 else frm[:i] if i > 0 else "", to)


COUNTS = [*range(0, 24), 31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257]
PART = ["", ".", "..", "..", "a", "b", "c", "...", ".a", "a.", "..a", "a..", " ", "é", "\U0001f600", "\\", "~", "-"]


def rnd_path(r):
    return r.choice(["", "", "", "/", "./", "../", "//"]) + "/".join(r.choice(PART) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6]))) + r.choice(["", "", "/", "/..", "/."])


def paths(r, n):
    small = ["", "/", ".", "..", "a", "a/b", "/a", "/a/b", "../a", "a/..", "/..", "/../a", "a/../..", "a/../../b", "./a", "a/.", "a//b", "../..", "/a/../../b", "a/b/../../..", "...", "a/", "/a/", "../a/../.."]
    sized = [(a, b) for m in COUNTS for a in ("a/" * m, "/" + "a/" * m, "../" * m, "a/" * m + "../" * (m // 2) + "b", "a" * m, "a/b/../" * m, "./" * m + "a", "/" * m, "." * m, "a" * m + "/..") for b in ("x", "../" * m, "b/" * m + "c", "../" * (m // 2))]
    k = 65536 + 5
    huge = [("a/" * k, "b"), ("../" * k, "../" * k), ("a/" * k, "../" * k), ("a" * k, "b" * k), ("/" + "a/" * k + "b", "../" * (k - 3)), ("a/../" * k, ".."), ("." * k, "/" * k)]
    first = [(a, b) for a in small for b in small] + sized + huge
    for i in range(n + len(first)):
        a, b = first[i] if i < len(first) else (rnd_path(r), rnd_path(r))
        yield f"path\tnorm\t{enc(a)}", expect("ok " + enc(norm(a)))
        yield f"path\tconcat\t{enc(a)}\t{enc(b)}", expect("ok " + enc(join(a, b)))

        def judge(ans, a=a):
            f = ans.split(" ")
            if f[0] != "ok" or len(f) != 3:
                return "no result"
            d, t = bytes.fromhex(f[1]).decode(), bytes.fromhex(f[2]).decode()
            i = a.rfind("/")
            wd = "/" if i == 0 else a[:i] if i > 0 else ""
            if t != a[i + 1:]:
                return f"last part {t!r}, expected {a[i + 1:]!r}"
            if (d.startswith("/"), norm(d)) != (wd.startswith("/"), norm(wd)):
                return f"directory {d!r}, expected the one of {wd!r}"
        yield f"path\tsplit\t{enc(a)}", judge


# ------------------------------------------------------------------------------------------- parser
class E(Exception):
    pass


class Doc:
    """one module being read"""

    def __init__(self, w, path, prog, text):
        self.w, self.path, self.prog = w, path, prog
        self.t = lex(text)
        self.i = 0
        self.d = "json"
        self.ks = {}
        self.const = False

    def load(self, name):
        return self.w.load(self.path, self.prog, name)

    require = load

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def raw(self):
        if self.i >= len(self.t):
            raise E("UnexpectedEnd")
        self.i += 1
        return self.t[self.i - 1]

    def tok(self):
        while True:
            k = self.raw()
            if k != "L":
                return k

    def req_bad(self, k):
        raise E("UnexpectedToken" if self.const and k == "O;" else "WrongRequireStatement")

    def value(self, k):
        if k == "O[":
            a = []
            k = self.tok()
            while k != "O]":
                a.append(self.value(k))
                k = self.tok()
                if k == "O]":
                    break
                if k != "O,":
                    raise E("UnexpectedToken")
                k = self.tok()
            return "[" + ",".join(a) + "]"
        if k == "O{":
            m = {}
            k = self.tok()
            while k != "O}":
                if not (k[0] == "S" or (k[0] == "I" and self.d != "json")):
                    raise E("UnexpectedToken")
                if self.tok() != "O:":
                    raise E("UnexpectedToken")
                key = bytes.fromhex(k[1:])      # the order of UTF-8 is that of the code points
                m[key] = self.value(self.tok())
                k = self.tok()
                if k == "O}":
                    break
                if k != "O,":
                    raise E("UnexpectedToken")
                k = self.tok()
            return "{" + ",".join(u16(x) + ":" + m[x] for x in sorted(m)) + "}"
        if k == "I" + enc("require") and self.d != "mjs":
            k = self.tok()
            if k != "O(":
                self.req_bad(k)
            k = self.tok()
            if k[0] != "S":
                self.req_bad(k)
            v = self.require(bytes.fromhex(k[1:]).decode())
            k = self.tok()
            if k != "O)":
                self.req_bad(k)
            self.d = "cjs"
            return v
        if k[0] == "N":
            return k
        if k[0] == "S":
            return "S" + u16(bytes.fromhex(k[1:]))
        if k[0] == "B":
            return k
        if k[0] == "I":
            s = bytes.fromhex(k[1:]).decode()
            if s in ("null", "true", "false"):
                return {"null": "Z", "true": "T", "false": "F"}[s]
            if s in self.ks:
                return self.ks[s]
        raise E("UnexpectedToken")

    def last(self, v):
        while self.peek() is not None:
            if self.raw() != "L":
                raise E("UnexpectedToken")
        return self.d, v

    def doc(self):
        nl = True
        I = lambda s: "I" + enc(s)
        while True:
            k = self.raw()
            if k == "L" or (k == "O;" and not nl):
                nl = True
                continue
            if not nl:
                raise E("NewLineExpected")
            if k == I("const"):
                if self.d == "json":
                    self.d = "djs"
                n = self.raw()
                if n[0] != "I" or self.raw() != "O=":
                    raise E("WrongConstStatement")
                self.const = True
                v = self.value(self.tok())
                self.const = False
                self.ks[bytes.fromhex(n[1:]).decode()] = v
                nl = False
            elif k == I("export") and self.d != "cjs":
                if self.raw() != I("default"):
                    raise E("WrongExportStatement")
                self.d = "mjs"
                return self.last(self.value(self.tok()))
            elif k == I("module") and self.d != "mjs":
                for x in ("O.", I("exports"), "O="):
                    if self.raw() != x:
                        raise E("WrongExportStatement")
                self.d = "cjs"
                return self.last(self.value(self.tok()))
            elif k == I("import") and self.d != "cjs":
                n = self.raw()
                if n[0] != "I" or self.raw() != I("from"):
                    raise E("WrongImportStatement")
                k = self.raw()
                if k[0] != "S":
                    raise E("WrongImportStatement")
                v = self.load(bytes.fromhex(k[1:]).decode())
                self.d = "mjs"
                self.ks[bytes.fromhex(n[1:]).decode()] = v
                nl = False
            else:
                return self.last(self.value(k))


def u16(b):
    return b.decode().encode("utf-16-be").hex()


class World:
    def __init__(self, files):
        self.files, self.done = files, {}

    def load(self, path, prog, name):
        k = resolve(path, name)
        if k in self.done:
            return self.done[k]
        if k in prog:
            raise E("CircularDependency")
        if k not in self.files:
            raise E("CannotReadFile")
        v = Doc(self, k, prog | {k}, self.files[k]).doc()[1]
        self.done[k] = v
        return v

    def main(self, path):
        if path not in self.files:
            return "error CannotReadFile"
        try:
            d, v = Doc(self, path, {norm(path)}, self.files[path]).doc()
            return d + " " + v
        except E as e:
            return f"error {e}"


class Alone(Doc):
    """a module read without its modules: each stands for its own name"""

    def __init__(self, text, d="json"):
        Doc.__init__(self, None, None, None, text)
        self.d = d

    def load(self, name):
        return "S" + u16(name.encode())

    require = load


class NoRequire(Alone):
    def require(self, name):
        raise E("require")


def push_req(text):
    """the tokens one by one; None where a require is reached, which this way of reading does not provide for"""
    try:
        want = "ok %s %s" % NoRequire(text).doc()
    except E as e:
        if str(e) == "require":
            return None
        want = f"ok error {e}"
    return "push\t" + enc(text), expect(want)


def value_req(how, d, text):
    w = Alone(text, d)
    try:
        v = w.value(w.tok())
        want = f"ok {w.d} {v} {len(w.t) - w.i}"
    except E as e:
        want = "ok more" if str(e) == "UnexpectedEnd" else f"ok error {e} {len(w.t) - w.i}"
    return f"pushany\t{how}{d}\t" + enc(text), expect(want)


def parse_req(path, files):
    w = World(files)
    want = w.main(path)
    done = {enc(k): v for k, v in w.done.items()}

    def judge(a):
        p = a[3:].split(" | ")
        if not a.startswith("ok ") or len(p) != 4:
            return "no result"
        if p[0] != want:
            return f"expected {want}"
        # a document has no line break inside a value dump, so the entries split at the commas outside brackets
        got, cur, depth = {}, "", 0
        for c in p[1] + ",":
            depth += (c in "[{") - (c in "]}")
            if c == "," and depth == 0:
                if cur:
                    k, v = cur.split("=", 1)
                    got[k] = v
                cur = ""
            else:
                cur += c
        if got != done:
            return f"modules loaded {got}, expected {done}"
        if p[2]:
            return "a module is still marked as being read"
    return "parse\t" + enc(path) + "\t" + ",".join(enc(k) + "=" + enc(v) for k, v in files.items()), judge


KEY = ["a", "b", "c", "", "A", "aa", "é", "\uffff", "\U00010000", "\ue000", "__proto__", "0", "1", "10", "2", "length", "null", " "]
NAME = ["x", "y", "z", "_0", "$", "a", "const", "default", "require", "module", "null"]


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


VALUES = ["null", "true", "false", "1", "-0", "2.5e3"]


def g_value(r, depth, names, mods, ident):
    k = r.randrange(12)
    if depth <= 0 or k < 5:
        k = r.randrange(9)
        if k == 0 and names:
            return [r.choice(names)]
        if k == 1 and mods:
            return ["require", "(", quote(r.choice(mods)), ")"]
        if k == 2:
            return [r.choice(["0n", "1n", "-5n", "123456789012345678901234567890n"])]
        return [r.choice(VALUES + [quote(r.choice(KEY)), literal(r)])]
    m = r.choice([0, 1, 1, 2, 3, 4])
    out = []
    for i in range(m):
        if i:
            out.append(",")
        if k < 9:
            out += g_value(r, depth - 1, names, mods, ident)
        else:
            q = r.choice(KEY)
            out += [r.choice(NAME) if ident and r.random() < .5 else quote(q), ":"] + g_value(r, depth - 1, names, mods, ident)
    if m and r.random() < .2:
        out.append(",")
    return (["["] + out + ["]"]) if k < 9 else (["{"] + out + ["}"])


def g_doc(r, mods, depth=3):
    kind = r.choice(["json", "djs", "cjs", "cjs", "mjs", "mjs"])
    out, names = [], []
    reqs = mods if kind in ("cjs", "djs") or r.random() < .1 else []
    if kind != "json":
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            n = r.choice(NAME)
            if kind == "mjs" and mods and r.random() < .6:
                out += ["import", n, "from", quote(r.choice(mods))]
            else:
                out += ["const", n, "="] + g_value(r, depth - 1, names, reqs, True)
            names.append(n)
            out.append(r.choice(["\n", ";", "\n", ";\n", "\n\n", ";"]))
    out += {"json": [], "djs": [], "cjs": ["module", ".", "exports", "="], "mjs": ["export", "default"]}[kind]
    out += g_value(r, depth, names, reqs, kind != "json")
    return out


TOK = ["{", "}", "[", "]", ":", ",", "=", ".", ";", "(", ")", "\n", "const", "export", "default", "module", "exports", "import", "from", "require", "x", "y", "null", "true", '"a"', '"m"', "1", "2n", '"\\u00"', "@", "1a"]


def mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(t) + 1)
        k = r.randrange(5)
        if k == 0:
            t.insert(i, r.choice(TOK))
        elif k == 1 and t:
            del t[i % len(t)]
        elif k == 2 and t:
            t[i % len(t)] = r.choice(TOK)
        elif k == 3 and t:
            j = r.randrange(len(t))
            t[i % len(t)], t[j] = t[j], t[i % len(t)]
        elif t:
            t = t[:i]
    return t


def layout(r, t, safe=False):
    s = r.randrange(2 if safe else 4)
    if s == 0:
        return " ".join(t)
    if s == 1:
        return "".join(x + r.choice(["", " ", "\n", " /* c */ ", "//c\n"] if x in "{}[],:" else [" "]) for x in t)
    return "".join(x + r.choice([" ", " ", " ", "\n", "\t", " /*\n*/ "]) for x in t)


MODS = {"m": "[1,2]", "n": "module.exports={a:1}", "e": "export default \"e\"", "bad": "{", "self": "module.exports=require(\"self\")", "big": "[1n]"}


def documents(r, n):
    yield from states(r, 400)
    for i, x in enumerate(reads(r, n)):
        yield x
        if i % 4 == 0:
            yield from states_more(r, 1)


def states(r, n):
    vs = ["null", "x", "1", '"a"', "2n", "[]", "{}", "[1]", '{"a":1}', "[[],{}]", "{a:1}", "{a:{b:[]}}", 'require("m")', '[require("m"),1]', '{"a":require("m")}', "[1,]", '{"a":1,}', "[1 2]", "[,]", "{,}", '{"a"}', '{"a":}', "require", 'require "m"', "require(m)", 'require("m"', 'require("m"]', "]", ":"]
    for d in ("json", "djs", "cjs", "mjs"):
        for x in vs:
            for y in ("", " 1\n"):
                yield value_req("m", d, x + y)
                yield value_req("p", d, x + y)
    for x in ['const x = 1\nx', 'const x = [1]; module.exports = x', 'import x from "m"\nexport default x', 'import x from "m" 1', 'const x = ; 1', 'const x = [ ; ] 1', "export default 1\n\n", "1 1", "[\n1\n]", "const x = {\na: 1\n}\nx", "const x = 1 x", "", "\n\n1", "const", "export default"]:
        q = push_req(x)
        if q:
            yield q
    for t in wide():
        q = push_req(t) if len(t) < 700 else None
        if q:
            yield q
    for t in NESTED:
        for i in range(len(t) + 1):
            for x in TOK:
                for u in (t[:i] + [x] + t[i:], t[:i] + [x] + t[i + 1:]):
                    q = push_req(" ".join(u))
                    if q:
                        yield q
    yield from states_more(r, n)


NESTED = [["const", "x", "=", "[", "[", "1", "]", ",", "{", "a", ":", "{", "b", ":", "[", "2", "]", "}", "}", "]", "\n", "[", "[", "x", "]", ",", "{", "c", ":", "[", "]", "}", "]"], ["export", "default", "{", "a", ":", "[", "[", "1", ",", "2", "]", "]", ",", "b", ":", "{", "}", "}"]]


def states_more(r, n):
    for i in range(n):
        t = g_doc(r, r.choice([[], ["m"]]))
        if r.random() < .5:
            t = mutate(r, t)
        q = push_req(layout(r, t))
        if q:
            yield q
        d = r.choice(["json", "djs", "cjs", "mjs"])
        t = g_value(r, 3, [], ["m"] if r.random() < .7 else [], r.random() < .8) + r.choice([[], ["1"], ["\n", "]"]])
        if r.random() < .4:
            t = mutate(r, t)
        yield value_req(r.choice("mp"), d, layout(r, t))


def wide():
    """documents of every size: items, members, members again, nesting, names"""
    for m in COUNTS:
        yield "[" + "1," * m + "]"
        yield "[" + ",".join(map(str, range(m))) + "]"
        yield "{" + ",".join('"k%d":%d' % (j, j) for j in range(m)) + "}"
        yield "{" + ",".join('"k%d":%d' % (j * 7 % (m or 1), j) for j in range(m)) + "}"
        yield "{" + ",".join('"k%d":%d' % (j % 3, j) for j in range(m)) + "}"
        yield "[" * m + "1" + "]" * m
        yield "[" * m + "]" * m
        yield '{"a":' * m + "[]" + "}" * m
        yield '[{"b":' * m + "{}" + "}]" * m
        yield "[[1]," * m + "2" + ",3]" * m
        names = "".join("const x%d=%s\n" % (j, "[x%d]" % (j - 1) if j else "0") for j in range(min(m, 66)))
        yield names + ("module.exports=x%d" % (min(m, 66) - 1) if m else "null")
        yield "".join("const x%d=%d;" % (j % 20, j) for j in range(m)) + "export default [" + "".join("x%d," % j for j in range(min(m, 20))) + "]"
        yield "\n" * m + "[" + "\n" * m + "]" + "\n" * m
        yield '"' + "s" * m + '"'
        yield '{"' + "k" * m + '":1}'
        yield "".join('const x%d=require("m")\n' % j for j in range(m)) + "module.exports=[" + "".join("x%d," % j for j in range(m)) + "]"
        yield "".join('import x%d from "m"\n' % j for j in range(m)) + "export default [" + "".join("x%d," % j for j in range(m)) + "]"


def huge():
    """longer than any count of 16 bits"""
    k = 65536 + 5
    yield "[" + "1,[]," * (k // 2) + "true]"
    yield "{" + ",".join('"k%d":%d' % (j, j) for j in range(k)) + "}"
    yield "{" + ",".join('"k%d":%d' % (j % 7, j) for j in range(k)) + "}"
    yield '"' + "s" * k + '"'
    yield "\n" * k + "[" + "\n" * k + "1" + "\n" * k + "]" + "\n" * k
    yield "const x=1\n" + "const y=[x]\n" * 20000 + "[x,y]"
    yield "".join("const x%d=%d;" % (j, j) for j in range(9000)) + "[x0,x1,x8191,x8999]"
    yield "const " + "n" * k + "=[1]\nmodule.exports=" + "n" * k
    yield "/*" + "*" * k + "*/ 1 //" + "/" * k


def reads(r, n):
    for t in wide():
        yield parse_req("a", dict(MODS, a=t))
    for t in huge():
        yield parse_req("a", dict(MODS, a=t))
    starts = [["const", "x", "=", "1", s, "x"] for s in ("\n", ";", ";\n", "\n;", "")] + [["export", "default", "1"], ["module", ".", "exports", "=", "1"], ["import", "x", "from", '"m"', "\n", "export", "default", "x"], ["const", "x", "=", "require", "(", '"m"', ")", "\n", "module", ".", "exports", "=", "[", "x", ",", "x", "]"], ["[", "]"], ["{", "}"], ["{", '"a"', ":", "1", "}"], ["[", "require", "(", '"m"', ")", "]"], ["const", "x", "=", "{", "a", ":", "1", ",", "b", ":", "2", "}", ";", "x"]] + NESTED + [["const", "x", "=", "{", "a", ":", "[", "require", "(", '"m"', ")", ",", "[", "{", "}", "]", "]", "}", "\n", "module", ".", "exports", "=", "[", "[", "x", "]", ",", "{", "a", ":", "require", "(", '"m"', ")", "}", "]"]]
    for t in starts:
        yield parse_req("a", dict(MODS, a=" ".join(t)))
        for i in range(len(t) + 1):
            yield parse_req("a", dict(MODS, a=" ".join(t[:i])))
            for x in TOK:
                yield parse_req("a", dict(MODS, a=" ".join(t[:i] + [x] + t[i:])))
                if i < len(t):
                    yield parse_req("a", dict(MODS, a=" ".join(t[:i] + [x] + t[i + 1:])))
    for i in range(n):
        t = g_doc(r, r.choice([[], ["m"], ["m", "n", "./m"], ["m", "n", "e", "bad", "self", "a", "no", "big"]]))
        if r.random() < .5:
            t = mutate(r, t)
        if r.random() < .01:
            m = r.choice([33, 65, 130, 300])
            t = r.choice([["["] * m + ["1"] + ["]"] * m, ["["] + ["1", ","] * m + ["]"], ["{"] + [x for j in range(m) for x in ('"k%d"' % (j % 200), ":", str(j), ",")] + ["}"]])
        yield parse_req("a", dict(MODS, a=layout(r, t)))


DIRS = ["", "d/", "d/e/", "f/", "/", "/d/", "../", "../d/"]


def rel(r, frm, to):
    """a text that names the file `to` in the module `frm`, when there is one"""
    d = frm.rsplit("/", 1)[0] if "/" in frm else ""
    if r.random() < .04 or to.startswith("/") != frm.startswith("/"):
        return r.choice([to, "./" + to, "../" + to, "x/../" + to, "nowhere"])
    dp, tp = [x for x in d.split("/") if x], to.strip("/").split("/")
    while dp and tp[:-1] and dp[0] == tp[0]:
        dp, tp = dp[1:], tp[1:]
    return r.choice(["", "./", "q/../", "./././"]) + "../" * len(dp) + "/".join(tp)


def g_module(r, mods):
    cjs = r.random() < .5
    out, names = [], []
    for i, m in enumerate(r.sample(mods, r.randrange(len(mods) + 1)) if mods else []):
        n = "x%d" % r.randrange(i + 1)
        names.append(n)
        out += (["const", n, "=", "require", "(", quote(m), ")"] if cjs else ["import", n, "from", quote(m)]) + [r.choice([";", "\n"])]
    out += ["module", ".", "exports", "=", "["] if cjs else ["export", "default", "["]
    for x in names + [r.choice(["1", "{}", "[]", '"v"'])]:
        out += [x, ","]
    if cjs and mods and r.random() < .5:
        out += ["require", "(", quote(r.choice(mods)), ")"]
    return out + ["]"]


CHAIN = [*range(1, 20), 33, 65]
ALIKE = ["b", "B", " b", "b ", "b\t", ".b", "b.", "b~", "%62", "b%20", "c\\b", "c/b", "c:b", "b?1", "b#1", "b;", "b\u00a0", "\u0431", "e\u0301", "\u00e9", "\ufeffb", "...", ".. ", "b.d.cjs", "b.d.mjs", "b.json", "c//b", "file:b", "~", "*", "$b", "node_modules"]


def chained():
    """so many modules: one after the other, one inside the other, all of one, in a circle of that length"""
    for m in CHAIN:
        ns = ["m%d" % j for j in range(m)]
        leaf = {x: "[%d]" % j for j, x in enumerate(ns)}
        inside = {x: 'module.exports=[require("%s"),%d]' % (ns[j + 1], j) for j, x in enumerate(ns[:-1])}
        yield "m0", dict(inside, **{ns[-1]: "7"})
        yield "m0", dict(inside, **{ns[-1]: 'module.exports=require("m%d")' % (m // 2)})
        yield "m0", {x: (t if j % 2 else 'import y from "%s"\nexport default [y,%d]' % (ns[j + 1], j)) for j, (x, t) in enumerate(inside.items())} | {ns[-1]: "7"}
        yield "a", dict(leaf, a="module.exports=[" + ",".join('require("%s")' % x for x in ns) + "]")
        yield "a", dict(leaf, a="module.exports=[" + ",".join('require("%s")' % x for x in ns + ns[::-1]) + "]")
        yield "a", dict(leaf, a="".join('import x%d from "%s"\n' % (j, x) for j, x in enumerate(ns + ns)) + "export default [" + ",".join("x%d" % j for j in range(2 * m)) + "]")
        yield "a", dict({x: 'module.exports=require("m0")' for x in ns[1:]}, m0="1", a="module.exports=[" + ",".join('require("%s")' % x for x in ns) + "]")
    # names that look like others
    for x in ALIKE:
        for y in ALIKE:
            yield "a", {y: '"found"', "a": "module.exports=require(" + quote(x) + ")"}
        yield "a", {"b": "1", x: '"found"', "a": "import y from " + quote(x) + "\nimport z from \"b\"\nexport default [y,z]"}
        yield "a", {"b": "1", x: '"found"', "a": 'import z from "b"\nimport y from ' + quote(x) + "\nexport default [y,z]"}


def modules(r, n):
    for main, files in chained():
        yield parse_req(main, files)
    for i in range(n):
        names = []
        for j in range(r.choice([1, 2, 3, 4, 5, 6])):
            x = r.choice(DIRS) + r.choice("abcd") + r.choice(["", ".d.cjs"])
            if x not in names and (x.startswith("/") == (names or [x])[0].startswith("/") or r.random() < .1):
                names.append(x)
        files = {}
        acyclic = r.random() < .6
        for j, x in enumerate(names):
            pool = names[j + 1:] if acyclic else names
            ms = [rel(r, x, y) for y in pool] + (["no"] if r.random() < .02 else [])
            t = g_doc(r, ms, 2) if i % 3 == 0 else g_module(r, ms)
            if r.random() < .03:
                t = mutate(r, t)
            files[x] = layout(r, t, r.random() < .9)
        main = names[0]
        if r.random() < .1:
            main = r.choice(["./", "x/../"]) + main if not main.startswith("/") else main
            if main not in files:
                files[main] = files[names[0]]
        yield parse_req(main, files)
