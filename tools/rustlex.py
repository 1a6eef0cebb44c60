"""A small Rust lexer and item finder (no macro expansion; enough for mechanical extraction)."""
import re

class LexError(Exception):
    pass

class Tok:
    __slots__ = ("kind", "s", "a", "b")

    def __init__(self, kind, s, a, b):
        self.kind, self.s, self.a, self.b = kind, s, a, b

    def __repr__(self):
        return f"{self.kind}:{self.s}"

_PUNCT3 = ["<<=", ">>=", "...", "..="]
_PUNCT2 = ["::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]
_ident = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"0x[0-9a-fA-F_]+[a-z0-9]*|0b[01_]+[a-z0-9]*|0o[0-7_]+[a-z0-9]*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?[a-z0-9]*")
_char = re.compile(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'\n])'", re.S)
_raw = re.compile(r'b?r(#*)"')


def lex(src):
    """-> tokens without whitespace and comments (doc comments dropped as well)."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            if d:
                raise LexError("unterminated comment")
            i = j
            continue
        m = _raw.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0:
                raise LexError("raw string")
            j += len(end)
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == '"' or src.startswith('b"', i):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or src.startswith("b'", i):
            m = _char.match(src, i + (c == "b"))
            if m:
                out.append(Tok("char", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            m = _ident.match(src, i + 1)
            if not m:
                raise LexError("quote at %d" % i)
            out.append(Tok("life", src[i:m.end()], i, m.end()))
            i = m.end()
            continue
        m = _ident.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = _num.match(src, i)
            s = m.group()
            e = m.end()
            # `1..2` and `1.method()` : do not swallow the dot
            out.append(Tok("num", s, i, e))
            i = e
            continue
        for p in _PUNCT3:
            if src.startswith(p, i):
                break
        else:
            for p in _PUNCT2:
                if src.startswith(p, i):
                    break
            else:
                p = c
        out.append(Tok("p", p, i, i + len(p)))
        i += len(p)
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_close(toks, i):
    """index of the token closing the bracket at i."""
    assert toks[i].s in OPEN, toks[i]
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == "p":
            if t.s in OPEN:
                d += 1
            elif t.s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError("unbalanced")


def skip_generics(toks, i):
    """toks[i] is '<' : index after the matching '>'."""
    d = 0
    j = i
    while j < len(toks):
        s = toks[j].s
        if toks[j].kind == "p":
            if s == "<":
                d += 1
            elif s == "<<":
                d += 2
            elif s == ">":
                d -= 1
            elif s == ">>":
                d -= 2
            elif s in OPEN:
                j = match_close(toks, j)
            if d <= 0:
                return j + 1
        j += 1
    raise LexError("generics")


class Item:
    """kind, name, impl header (or None), token range [a,b), fn: sig tokens/body range"""

    def __init__(self, **k):
        self.__dict__.update(k)


_KW = {"fn", "struct", "enum", "trait", "impl", "mod", "const", "static", "type", "use", "union", "macro_rules"}


def parse_items(toks, a, b, impl=None, in_trait=None):
    items = []
    i = a
    while i < b:
        start = i
        attrs = []
        while i < b and toks[i].s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            e = match_close(toks, j)
            attrs.append("".join(t.s for t in toks[j:e + 1]))
            i = e + 1
        if i >= b:
            break
        body_start = i
        # visibility and qualifiers
        if toks[i].s == "pub":
            i += 1
            if i < b and toks[i].s == "(":
                i = match_close(toks, i) + 1
        while i < b and toks[i].s in ("unsafe", "async", "extern", "default") or (
                i < b and toks[i].s == "const" and toks[i + 1].s in ("fn", "unsafe", "extern")) or (
                i < b and toks[i].kind == "str"):
            i += 1
        if i >= b:
            break
        kw = toks[i].s
        if kw == "fn":
            name = toks[i + 1].s
            j = i + 2
            if toks[j].s == "<":
                j = skip_generics(toks, j)
            pclose = match_close(toks, j)
            popen = j
            j = pclose + 1
            while toks[j].s not in ("{", ";"):
                if toks[j].s in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            if toks[j].s == "{":
                e = match_close(toks, j)
                items.append(Item(kind="fn", name=name, impl=impl, a=body_start, b=e + 1, fn_kw=i, popen=popen, pclose=pclose,
                                  body=(j, e), attrs=attrs))
                i = e + 1
            else:
                items.append(Item(kind="fn", name=name, impl=impl, a=body_start, b=j + 1, fn_kw=i, popen=popen, pclose=pclose,
                                  body=None, attrs=attrs))
                i = j + 1
        elif kw in ("struct", "enum", "union"):
            name = toks[i + 1].s
            j = i + 2
            while toks[j].s not in ("{", ";"):
                if toks[j].s in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            e = match_close(toks, j) if toks[j].s == "{" else j
            items.append(Item(kind=kw, name=name, impl=impl, a=body_start, b=e + 1, attrs=attrs))
            i = e + 1
        elif kw in ("impl", "trait", "mod"):
            j = i + 1
            while toks[j].s not in ("{", ";"):
                if toks[j].s in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            if toks[j].s == ";":
                i = j + 1
                continue
            e = match_close(toks, j)
            it = Item(kind=kw, name=None, impl=impl, a=body_start, b=e + 1, head=(i, j), body=(j, e), attrs=attrs)
            if kw == "mod":
                it.name = toks[i + 1].s
                it.sub = [] if any("test" in x for x in attrs) else parse_items(toks, j + 1, e)
            elif kw == "trait":
                it.name = toks[i + 1].s
                it.sub = parse_items(toks, j + 1, e, impl=it)
            else:
                # self type / trait
                k = i + 1
                if toks[k].s == "<":
                    k = skip_generics(toks, k)
                hd = toks[k:j]
                d = 0
                pos_for = None
                pos_where = None
                for q, t in enumerate(hd):
                    if t.s == "for" and t.kind == "id" and pos_for is None:
                        pos_for = q
                    if t.s == "where":
                        pos_where = q
                        break
                end = pos_where if pos_where is not None else len(hd)
                if pos_for is not None:
                    it.trait = hd[:pos_for]
                    it.self_ty = hd[pos_for + 1:end]
                else:
                    it.trait = None
                    it.self_ty = hd[:end]
                it.name = ("".join(t.s for t in it.trait) + " for " if it.trait else "") + "".join(t.s for t in it.self_ty)
                it.sub = parse_items(toks, j + 1, e, impl=it)
            items.append(it)
            i = e + 1
        elif kw in ("const", "static", "type", "use"):
            j = i + 1
            while toks[j].s != ";":
                if toks[j].s in OPEN:
                    j = match_close(toks, j)
                j += 1
            name = toks[i + 1].s
            if name == "mut":
                name = toks[i + 2].s
            items.append(Item(kind=kw, name=name, impl=impl, a=body_start, b=j + 1, attrs=attrs))
            i = j + 1
        elif kw == "macro_rules":
            j = i
            while toks[j].s not in OPEN:
                j += 1
            i = match_close(toks, j) + 1
        else:
            # macro call or unknown: skip a token tree
            if toks[i].s in OPEN:
                i = match_close(toks, i) + 1
            else:
                i += 1
    return items


def render(toks):
    """token text with single spaces (keeps `a.b`, `::` readable enough; meaning is unchanged)."""
    out = []
    for k, t in enumerate(toks):
        out.append(t.s)
    return " ".join(out)
