"""Where to look first: the literals of /repo's current sources that its reviewed sources do not have.

A cross-check draws its inputs at random; a change that only matters for one size, one character or one value would
wait long for its draw. The literals a change brings in say what it singles out, so the generators are given them (and
their neighbours) as further edge cases. On the reviewed sources there are none and the generators are as they were.
What is a violation is the oracle's to say, with or without hints.
"""
import json
import os
import struct
import sys

import rustlex

INTS, FLOATS, CHARS, STRS = [], [], [], []
BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units", "literals.json")


def value(s):
    s = s.replace("_", "")
    for suf in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64", "f32"):
        if s.endswith(suf) and not (s.startswith("0x") and suf[0] == "f"):
            s = s[:-len(suf)]
            break
    try:
        return int(s, 0) if s.startswith("0") and s[1:2] in tuple("xbo") else int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError:
            return None


def unescape(t):
    out, i = "", 0
    while i < len(t):
        c = t[i]
        i += 1
        if c != "\\":
            out += c
            continue
        c = t[i:i + 1]
        i += 1
        if c == "x":
            out += chr(int(t[i:i + 2], 16))
            i += 2
        elif c == "u":
            j = t.index("}", i)
            v = int(t[i + 1:j].replace("_", ""), 16)
            out += chr(v)
            i = j + 1
        else:
            out += {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(c, c)
    return out


def literals(repo):
    """file -> {literal: times}"""
    r = {}
    for top in ("nanvm-lib/src", "nanvm/src"):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(d, f)
                c = r.setdefault(os.path.relpath(p, repo), {})
                try:
                    ts = rustlex.lex(open(p, encoding="utf-8").read())
                except (rustlex.LexError, OSError, UnicodeDecodeError, AttributeError):
                    continue
                for i, t in enumerate(ts):
                    k = None
                    if t.kind == "num":
                        v = value(t.s)
                        k = ("f" if isinstance(v, float) else "i") + repr(v) if v is not None else None
                        # constants written as an operation of two
                        if isinstance(v, int) and i + 2 < len(ts) and ts[i + 1].s in ("<<", "*", "+", "-") and ts[i + 2].kind == "num":
                            w = value(ts[i + 2].s)
                            if isinstance(w, int) and not (ts[i + 1].s == "<<" and w > 128):
                                x = {"<<": v << w if w <= 128 else 0, "*": v * w, "+": v + w, "-": v - w}[ts[i + 1].s]
                                c["i%r" % x] = c.get("i%r" % x, 0) + 1
                    elif t.kind in ("str", "char"):
                        raw = t.s.lstrip("b")
                        try:
                            if raw[0] == "r":
                                k = "s" + raw[raw.index('"') + 1:raw.rindex('"')]
                            else:
                                k = ("s" if t.kind == "str" else "c") + unescape(raw[1:-1])
                        except (ValueError, IndexError, OverflowError):
                            k = None
                    if k is not None:
                        c[k] = c.get(k, 0) + 1
    return r


def record(repo):
    json.dump(literals(repo), open(BASE, "w"), indent=0, sort_keys=True)


def load(repo):
    """fill the lists from the difference"""
    base = json.load(open(BASE)) if os.path.exists(BASE) else None
    if base is None:
        return 0
    new = {}
    for f, c in literals(repo).items():
        for k, n in c.items():
            if n > base.get(f, {}).get(k, 0):
                new[k] = None
    for k in sorted(new)[:400]:
        if k[0] == "i":
            INTS.append(int(k[1:]))
        elif k[0] == "f":
            FLOATS.append(float(k[1:]))
        elif k[0] == "c":
            CHARS.append(k[1:])
        elif k[0] == "s" and 0 < len(k) <= 41:
            STRS.append(k[1:])
    del INTS[24:], FLOATS[12:], CHARS[24:], STRS[24:]
    return len(new)


def near(lo, hi):
    """the new numbers and their neighbours, within bounds"""
    return sorted({x for v in INTS for x in (v - 1, v, v + 1) if lo <= x <= hi})


def pick(r, p, lo, hi):
    """now and then one of them; None otherwise (and always when there are none)"""
    if not INTS or r.random() >= p:
        return None
    t = near(lo, hi)
    return r.choice(t) if t else None


def scalars():
    """the characters among them: those written as such, and numbers that are one"""
    s = {ord(c) for c in CHARS if len(c) == 1} | set(near(0, 0x10ffff)) | {ord(c) for t in STRS for c in t}
    s |= {x for c in CHARS if len(c) == 1 for x in (ord(c) - 1, ord(c) + 1)}
    return sorted(x for x in s if 0 <= x <= 0x10ffff and not 0xd800 <= x <= 0xdfff)


def bits():
    """numbers as the bits of a double, and as doubles"""
    out = []
    for x in FLOATS + INTS:
        for y in (x, -x):
            try:
                out.append(struct.unpack(">Q", struct.pack(">d", float(y)))[0])
            except OverflowError:
                pass
    for v in near(0, (1 << 64) - 1):
        out.append(v)
        if v < 0x800:
            out += [v << 52, (v << 52) + 1, (v << 52) - 1 if v else 0]
    for b in list(out):
        out += [b - 1, b + 1]
    return sorted({b for b in out if 0 <= b < 1 << 64})


def install(fals, falsp, falss, falsa, falsm):
    """further entries for the generators' tables"""
    sys.setrecursionlimit(10000)
    fals.EDGE += [x for x in near(0, fals.B - 1) if x not in fals.EDGE]
    cs = scalars()
    fals.CH_EDGE += cs
    fals.SPECIAL += [c for c in cs if c >= 0x250]
    words = [t for t in STRS if not any(0xd800 <= ord(c) <= 0xdfff for c in t)] + [chr(c) for c in cs]
    numbers = [str(v) for v in near(-(1 << 130), 1 << 130)] + [repr(f) for f in FLOATS]
    fals.FRAG += words + numbers[:40]
    falsp.PART += [w for w in words]
    falsp.KEY += words + numbers[:40]
    falsp.VALUES += numbers[:40] + [str(v) + "n" for v in near(-(1 << 130), 1 << 130)][:40]
    falsp.NAME += [w for w in words if w and set(w) <= fals.ID1 and w[0] in fals.ID0]
    falsp.TOK += [w for w in words if fals.lex(w) and "E" not in fals.lex(w)[0][:1]][:12] + [falsp.quote(w) for w in words][:6]
    falsp.ALIKE += words
    sizes = near(0, 5000)
    falsp.COUNTS[:0] = [x for x in sizes if x <= 600]
    falsp.CHAIN += [x for x in sizes if 0 < x <= 150]
    falss.SIZES[:0] = sizes
    falss.DEPTHS[:0] = [x for x in sizes if 0 < x <= 300]
    falss.BITS += [b for b in bits() if b >> 52 & 0x7ff != 0x7ff]
    falsa.NANS += [b for b in bits() if b >> 52 & 0x7ff == 0x7ff]
    units = sorted(set(x for x in cs if x < 0x10000) | set(near(0, 0xffff)))
    falss.CHARS += units
    falss.KEYS += [[c for c in u16(w)] for w in words if len(w) < 30]
    falsm.SIZES += [x for x in sizes if x <= 300] * 2


def u16(w):
    b = w.encode("utf-16-be")
    return [b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]
