"""Falsifiers for the serializers (see fals.py). The oracles are written from the properties: the JSON text of a
value, and the DJS text of a graph of values with the constants in whatever order the text has them."""
import struct
from decimal import ROUND_HALF_UP, Context, Decimal

import hints

CTX = Context(prec=2000)
ESC = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 0x22: '\\"', 0x5c: "\\\\"}


def jstr(s):
    return '"' + "".join(ESC[c] if c in ESC else "\\u%04X" % c if c < 32 or c > 127 else chr(c) for c in s) + '"'


def number(bits):
    f = struct.unpack(">d", struct.pack(">Q", bits))[0]
    if f != f or f in (float("inf"), float("-inf")):
        return None
    d = Decimal(repr(f))
    # of two shortest decimals that are equally near, the one away from zero
    e = Decimal(f).quantize(Decimal((0, (1,), d.as_tuple().exponent)), ROUND_HALF_UP, CTX)
    s = format(e if float(e) == f else d, "f")
    return s.rstrip("0").rstrip(".") if "." in s else s


# a node: ("N", bits) ("Z",) ("T",) ("F",) ("S", units) ("B", hex) ("A", [i..]) ("O", [(units, i)..])
def units(s):
    return "".join("%04x" % c for c in s)


def send(g):
    o = []
    for n in g:
        k = n[0]
        o.append(k + ("%016x" % n[1] if k == "N" else units(n[1]) if k == "S" else n[1] if k == "B" else
                      ",".join(map(str, n[1])) if k == "A" else ",".join(units(u) + ":" + str(i) for u, i in n[1]) if k == "O" else ""))
    return ";".join(o)


def kids(n):
    return n[1] if n[0] == "A" else [i for _, i in n[1]] if n[0] == "O" else []


def text(g, i, ref):
    return ref[i] if i in ref else body(g, i, ref)


def body(g, i, ref):
    n = g[i]
    k = n[0]
    if k == "N":
        return number(n[1])
    if k == "S":
        return jstr(n[1])
    if k == "A":
        return "[" + ",".join(text(g, j, ref) for j in n[1]) + "]"
    if k == "O":
        return "{" + ",".join(jstr(u) + ":" + text(g, j, ref) for u, j in n[1]) + "}"
    return {"Z": "null", "T": "true", "F": "false"}[k]


def reachable(g):
    seen, st = set(), [len(g) - 1]
    while st:
        i = st.pop()
        if i not in seen:
            seen.add(i)
            st += kids(g[i])
    return seen


def graph(g, i, seen):
    n = g[i]
    k = n[0]
    if i in seen:
        return "#%d" % seen[i]
    if k in "AO":
        seen[i] = len(seen)
    if k == "A":
        return "[" + ",".join(graph(g, j, seen) for j in n[1]) + "]"
    if k == "O":
        return "{" + ",".join(units(u) + ":" + graph(g, j, seen) for u, j in n[1]) + "}"
    return {"N": lambda: "N%016x" % n[1], "S": lambda: "S" + units(n[1])}.get(k, lambda: k)()


def tree(g, i):
    n = g[i]
    k = n[0]
    if k == "A":
        return "[" + ",".join(tree(g, j) for j in n[1]) + "]"
    if k == "O":
        return "{" + ",".join(units(u) + ":" + tree(g, j) for u, j in n[1]) + "}"
    return {"N": lambda: "N%016x" % n[1], "S": lambda: "S" + units(n[1])}.get(k, lambda: k)()


def kinds(g):
    """which known findings the value meets"""
    r = reachable(g)
    strs = [n[1] for n in (g[i] for i in r) if n[0] == "S"] + [u for n in (g[i] for i in r) if n[0] == "O" for u, _ in n[1]]
    return (any(g[i][0] == "B" for i in r), any(g[i][0] == "N" and number(g[i][1]) is None for i in r), any(0xd800 <= c < 0xe000 for s in strs for c in s))


def keyed(g):
    """objects as a document can have them: each key once, in order"""
    return all(n[0] != "O" or all(a[0] < b[0] for a, b in zip(n[1], n[1][1:])) for n in g)


def judge_json(g):
    big, inf, sur = kinds(g)

    def j(ans):
        f = ans.split(" ")
        if big:
            return ("KF", "bigint") if ans.startswith("ok panic") else "a bigint written"
        if ans.startswith("ok panic") or len(f) != 3 or f[0] != "ok":
            return "no text"
        t = bytes.fromhex(f[1].replace("-", "")).decode()
        if inf:
            return ("KF", "non-finite") if t == NONFIN(g) else "expected the text of a value that is no JSON number"
        w = body(g, len(g) - 1, {})
        if t != w:
            return f"text {t!r}, expected {w!r}"
        if keyed(g) and f[2] != tree(g, len(g) - 1):
            return ("KF", "surrogate") if sur and f[2] == "error:UnexpectedToken" else f"reads back as {f[2]}, expected {tree(g, len(g) - 1)}"
    return j


def NONFIN(g):
    global number
    n = number
    number = lambda b: n(b) or {0x7ff0 << 48: "inf", 0xfff0 << 48: "-inf"}.get(b, "NaN")
    try:
        return body(g, len(g) - 1, {})
    finally:
        number = n


def djs(g, t, cjs):
    """None, or what is wrong with the text t of the graph g"""
    r = reachable(g)
    root = len(g) - 1
    times = {}
    for i in r:
        for j in kids(g[i]):
            times[j] = times.get(j, 0) + 1
    shared = [i for i in sorted(r) if g[i][0] in "AO" and times.get(i, 0) > 1]
    below = {}
    for i in sorted(r):
        below[i] = set().union(*[below[j] | {j} for j in kids(g[i])])
    tries = [0]

    def go(pos, ref, left):
        tries[0] += 1
        if tries[0] > 20000:
            return True
        if not left:
            return t[pos:] == ("module.exports=" if cjs else "export default ") + text(g, root, ref)
        n = len(ref)
        p = "const _%d=" % n
        if not t.startswith(p, pos):
            return False
        for c in left:
            if below[c] & left:
                continue
            d = p + body(g, c, ref) + ";"
            if t.startswith(d, pos) and go(pos + len(d), {**ref, c: "_%d" % n}, left - {c}):
                return True
        return False
    if not go(0, {}, frozenset(shared)):
        return f"text {t!r}: not definitions of the {len(shared)} shared values, each once and before its use, and then the value"


def judge_djs(g):
    big, inf, sur = kinds(g)
    if big or inf:
        return lambda ans: None

    def j(ans):
        f = ans.split(" ")
        if len(f) != 5 or f[0] != "ok" or "panic" in ans:
            return "no text"
        known = None
        for k in (0, 1):
            t = bytes.fromhex(f[1 + 2 * k]).decode()
            e = djs(g, t, k == 1)
            if e:
                return e
            w = graph(g, len(g) - 1, {})
            if keyed(g) and f[2 + 2 * k] != w:
                if not (sur and f[2 + 2 * k] == "error:UnexpectedToken"):
                    return f"{t!r} reads back as {f[2 + 2 * k]}, expected {w}"
                known = ("KF", "surrogate")
        return known
    return j


BITS = [0, 1 << 63, 1, 0x3ff << 52, 0xbff << 52, 0x7fefffffffffffff, 0x0010000000000000, 0x000fffffffffffff, 0x3fb999999999999a, 0x4340000000000000, 0x4415af1d78b58c40, 0x444b1ae4d6e2ef50, 0x3eb0c6f7a0b5ed8d, 0x3e7ad7f29abcaf48]
CHARS = list(range(0, 0x24)) + [0x2f, 0x5b, 0x5c, 0x5d, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0xabcd, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff]


KEYS = [[0x61], [0x62], [0x30], [0x31], [0x22]]


def r_str(r):
    if r.random() < .04:
        return [r.choice([0xd83d, 0xde00, 0xd800, 0xdfff])]
    return [r.choice(CHARS) if r.random() < .7 else r.choice([r.randrange(0x20, 0x80), r.randrange(0, 0xd800)]) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 8]))]


def r_num(r):
    x = r.random()
    if x < .03:
        return r.choice([0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48])
    if x < .3:
        return r.choice(BITS)
    if x < .6:
        return struct.unpack(">Q", struct.pack(">d", float(r.randrange(-1000, 1000)) * 10.0 ** r.randrange(-30, 30)))[0]
    while True:
        b = r.getrandbits(64)
        if b >> 52 & 0x7ff != 0x7ff:
            return b


def r_key(r):
    return r.choice(KEYS) if r.random() < .7 else r_str(r)


def r_graph(r, n, bad):
    g = []
    for i in range(n):
        x = r.random()
        near = lambda: r.randrange(max(0, i - r.choice([1, 2, 3, 6, 30])), i)
        if i == 0 or x < .2 and i < n - 1:
            k = r.choice("NNZTFSS" + ("B" if bad else ""))
            v = (k, r_num(r)) if k == "N" else (k, r_str(r)) if k == "S" else (k, r.choice(["", "-1f"])) if k == "B" else (k,)
            if not bad and k == "N" and number(v[1]) is None:
                v = ("Z",)
            g.append(v)
        elif x < .6:
            g.append(("A", [near() for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]))
        else:
            o = [(r_key(r), near()) for _ in range(r.choice([0, 1, 2, 2, 3]))]
            if r.random() < .9:
                o = sorted({tuple(k): (k, j) for k, j in o}.values())
            g.append(("O", o))
    return g


SIZES = [*range(0, 40), 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 513]
DEPTHS = [*range(1, 24), 31, 32, 33, 63, 64, 65, 100, 127, 128, 129]


def f_bits(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def sized():
    """values of every size: long strings, wide arrays and objects, deep ones"""
    for k in SIZES:
        yield [("S", [0x61] * k)]
        yield [("S", [0x61] * k + [10])]
        yield [("S", [0x4e2d, 1] * (k // 2) + [0x5c])]
        yield [("T",), ("N", f_bits(1.5)), ("A", [0, 1] * (k // 2) + [0] * (k % 2))]
        yield [("T",), ("O", sorted(([0x61 + j % 26, 0x61 + j // 26], 0) for j in range(k)))]
        yield [("Z",), ("O", [([0x61] * k, 0)])]
    for k in DEPTHS:
        for end in (("T",), ("S", [0x22])):
            yield [end] + [("A", [j]) for j in range(k)]
            yield [end] + [("O", [([0x61], j)]) for j in range(k)]
            yield [end] + [("O", [([0x22], j)]) if j % 2 else ("A", [j]) for j in range(k)]


def huge():
    """longer than any count of 16 bits"""
    k = 65536 + 5
    yield [("S", [0x61, 0x22] * (k // 2) + [0x62])]
    yield [("T",), ("N", f_bits(1.5)), ("A", [0, 1] * (k // 2) + [0])]
    yield [("T",), ("O", [([0x61 + j % 26, 0x61 + j // 26 % 26, 0x61 + j // 676 % 26, 0x61 + j // 17576], 0) for j in range(k)])]
    yield [("Z",), ("O", [([0x61] * k, 0)])]


def grid():
    """the numbers next to which a writer of decimals changes its mind"""
    for e in range(-325, 309):
        b = f_bits(float(f"1e{e}"))
        yield from (x for x in (b - 1, b, b + 1, f_bits(float(f"-1.25e{e}"))) if x >= 0)
    for e in range(0, 0x7ff, 3):
        yield from (x for x in ((e << 52) - 1, e << 52, (e << 52) + 1, 1 << 63 | e << 52) if x >= 0)
    for e in range(53):
        yield from (1 << e, (1 << e) - 1, f_bits(float(1 << e) + 0.5))


def json_texts(r, n):
    for g in huge():
        yield "ser\t" + send(g), judge_json(g)
    for b in BITS:
        if number(b) is not None:
            yield "ser\tN%016x" % b, judge_json([("N", b)])
    for g in sized():
        yield "ser\t" + send(g), judge_json(g)
    for b in grid():
        if number(b) is not None:
            yield "ser\tN%016x" % b, judge_json([("N", b)])
    for c in range(0, 0x10000, 7 if n < 20000 else 1):
        if n < 20000 and c > 0x3000 and c % 5:
            continue
        g = [("S", [c])]
        yield "ser\t" + send(g), judge_json(g)
    for i in range(n):
        g = [("N", r_num(r))] if i % 4 == 0 else [("S", r_str(r))] if i % 4 == 1 else r_graph(r, r.choice([2, 3, 5, 8, 12]), i % 16 == 3)
        if len(body_size(g)) > 3000:
            continue
        yield "ser\t" + send(g), judge_json(g)


def body_size(g):
    """how long the text gets, as a range of that length"""
    z = []
    for n in g:
        z.append(min(10 ** 6, 2 + sum(z[j] for j in kids(n)) + (6 * sum(len(u) + 1 for u, _ in n[1]) if n[0] == "O" else 6 * len(n[1]) if n[0] == "S" else 4)))
    return range(z[-1])


def djs_texts(r, n):
    # every small graph of arrays: each of up to four arrays holds up to two of those before it
    small = [[]]
    for i in range(4):
        nxt = []
        for g in small:
            for c in [[]] + [[a] for a in range(i)] + [[a, b] for a in range(i) for b in range(i)]:
                nxt.append(g + [("A", c)])
        small = nxt
        for g in small:
            yield "ser\t" + send(g) + "\tdjs", judge_djs(g)
    for g in sized():
        yield "ser\t" + send(g) + "\tdjs", judge_djs(g)
    for g in huge():
        yield "ser\t" + send(g) + "\tdjs", judge_djs(g)
    for k in range(1, 10):
        g = [("A", [j, j] if j >= 0 else []) for j in range(-1, k)]
        yield "ser\t" + send(g) + "\tdjs", judge_djs(g)
    for k in (k for k in SIZES if k < 66 or k in (100, 129) or k in hints.near(0, 400)):
        # k values, each held twice: so many names; and one shared value among so many places
        one = [("N", f_bits(float(i))) for i in range(k)] + [("A", [i]) for i in range(k)]
        for g in (one + [("A", [*range(k, 2 * k)] * 2)],
                  one + [("A", [*range(k, 2 * k), *range(2 * k - 1, k - 1, -1)])],
                  one + [("A", [k + i for i in range(k) for _ in (0, 1)])],
                  [("T",), ("O", [([0x78], 0)]), ("A", [0] * k + [1]), ("A", [2, 0, 1] if k % 2 else [1, 2])],
                  [("Z",), ("A", [0]), ("A", [0] * k + [1] + [0] * 3), ("A", [2, 1])],
                  [("A", []), ("O", sorted(([0x61 + j % 26, 0x61 + j // 26], 0) for j in range(k)))]):
            yield "ser\t" + send(g) + "\tdjs", judge_djs(g)
    for i in range(n):
        g = r_graph(r, r.choice([2, 3, 5, 8, 12, 20]), False)
        if len(body_size(g)) > 3000:
            continue
        yield "ser\t" + send(g) + "\tdjs", judge_djs(g)
