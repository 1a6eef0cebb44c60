"""Falsifiers: inputs generated from VERIF_SEED, replayed against the real code, judged by an independent oracle.

They never prove anything. They give the failing input for an obligation the verifier rejected, and stand in
(bounded, labelled so) for a function the verifier could not process.
A generator yields (request, judge); judge(answer) returns None when right, a string saying what is wrong
otherwise, or ('KF', id) when the answer is a listed known finding.
"""
import random

import hints


def h(x):
    return ("-" if x < 0 else "") + format(abs(x), "x")


B = 1 << 64
EDGE = [0, 1, 2, 3, 7, (1 << 31), (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 63) + 1, B - 2, B - 1]


def rnd_limb(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice(EDGE)
    if k == 1:
        return 1 << r.randrange(64)
    if k == 2:
        return B - 1 - (1 << r.randrange(64))
    if k == 3:
        return r.randrange(1 << r.randrange(1, 65))
    return r.randrange(B)


def rnd_nat(r, maxl=5):
    n = hints.pick(r, .15, 0, 300) if maxl > 3 else None
    if n is None:
        n = r.randrange(0, maxl + 1)
    if r.random() < 0.002:
        n = r.choice([17, 33, 64, 65, 127, 128, 129, 140, 255, 256, 257, 300]) if maxl > 3 else 12
    m = r.randrange(4)
    if m == 0:
        return sum(r.choice([0, 0, B - 1, B - 1, 1, 1 << 63]) << (64 * i) for i in range(n))
    if m == 1:
        return max(0, (1 << (64 * n)) + r.randrange(-3, 4))
    if m == 2:
        k = hints.pick(r, .2, 0, 20000)
        return (1 << (r.randrange(0, 64 * maxl) if k is None else k)) + r.choice([-1, 0, 0, 1])
    return sum(rnd_limb(r) << (64 * i) for i in range(n))


def rnd_int(r, maxl=5):
    x = rnd_nat(r, maxl)
    return -x if r.random() < 0.5 else x


def edge_ints():
    s = set()
    for x in EDGE + [B, B + 1, 2 * B - 1, 2 * B, B * B - 1, B * B, B * B + 1, B * (B - 1), (B - 1) * (B - 1), B ** 3 - 1, B ** 3, (1 << 63) * B, B * B - B, 5 * B, 7, *hints.near(-B ** 3, B ** 3)]:
        s.add(x)
        s.add(-x)
    return sorted(s)


def num(x):
    return ("-" if x < 0 else "") + hex(abs(x))


def expect_num(*vals):
    want = "ok " + " ".join(num(v) + " canon" for v in vals)

    def j(a):
        return None if a == want else f"expected {want[3:]}"
    return j


def expect(s):
    def j(a):
        return None if a == s else f"expected {s}"
    return j


def expect_panic(a):
    return None if a.startswith("panic") else "expected a panic (the operation has no result)"


def cmpw(a, b):
    return "ok " + ("lt" if a < b else "gt" if a > b else "eq")


def mix(*gens):
    """one item of each generator in turn, until all have ended"""
    gens = [iter(g) for g in gens]
    while gens:
        for g in list(gens):
            try:
                yield next(g)
            except StopIteration:
                gens.remove(g)


def tdiv(a, b):
    q = abs(a) // abs(b)
    q = -q if (a < 0) != (b < 0) else q
    return q, a - q * b


def pairs(r, n, maxl=5):
    e = edge_ints()
    e = [(a, b) for a in e for b in e]
    r.shuffle(e)
    yield from e
    for k in (127, 128, 129, 255, 256, 257):
        a = (1 << (64 * k)) - r.randrange(1, 9)
        for b in (3, B - 1, -3, a + 1, a - 1, -a, 1 - a, a >> 64, -(a >> 64)):
            yield a, b
            yield -a, b
    for i in range(n):
        a, b = rnd_int(r, maxl), rnd_int(r, maxl)
        k = r.randrange(12)
        if k == 0:
            b = a
        elif k == 1:
            b = -a
        elif k == 2:
            b = a + r.choice([-1, 1])
        elif k == 3:
            b = a ^ (1 << r.randrange(0, 64 * maxl))
        elif k == 4:
            b = rnd_int(r, 1)
        yield a, b


# ------------------------------------------------------------------------------- JsBigint
def jb_ring(r, n):
    yield "jb\tzero\t0", expect_num(0)
    for a, b in pairs(r, n):
        A, C = h(a), h(b)
        yield f"jb\tadd\t{A}\t{C}", expect_num(a + b)
        yield f"jb\tsub\t{A}\t{C}", expect_num(a - b)
        yield f"jb\tmul\t{A}\t{C}", expect_num(a * b)
        yield f"jb\tneg\t{A}", expect_num(-a)
        if abs(a) < B:
            yield f"jb\tfrom_u64\t{A}\t{abs(a)}", expect_num(a)
        if i_big(r):
            for k in (32769, 65537):
                x = (1 << (64 * k)) - r.randrange(1, 9)
                for y in (1, -1, x, -x, -(x >> 64)):
                    yield f"jb\tadd\t{h(x)}\t{h(y)}", expect_num(x + y)
                    yield f"jb\tsub\t{h(x)}\t{h(y)}", expect_num(x - y)


def i_big(r):
    return r.random() < 0.00005


def jb_order(r, n):
    for a, b in pairs(r, n):
        A, C = h(a), h(b)
        yield f"jb\tcmp\t{A}\t{C}", expect(cmpw(a, b))
        yield f"jb\teq\t{A}\t{C}", expect("ok " + str(a == b).lower())
        yield f"jb\tis_zero\t{A}", expect("ok " + str(a == 0).lower())
        yield f"jb\tlast_bit\t{A}", expect(f"ok {abs(a) & 1}")
        if i_big(r):
            for k in (32769, 65537):
                x = (1 << (64 * k)) - r.randrange(1, 9)
                for y in (1, -1, x, x - 1, -x, -x - 1, -(x >> 64)):
                    for p, q in ((x, y), (-x, y), (y, -x)):
                        yield f"jb\tcmp\t{h(p)}\t{h(q)}", expect(cmpw(p, q))
                        yield f"jb\teq\t{h(p)}\t{h(q)}", expect("ok " + str(p == q).lower())


def judge_div(a, b):
    q, m = tdiv(a, b)
    right = f"ok {num(q)} canon {num(m)} canon"
    # the known findings, pinned by the repository's own tests
    km = abs(b) if abs(a) < abs(b) else abs(m)
    km = -km if (a < 0) != (b < 0) else km
    known = f"ok {num(q)} canon {num(km)} canon"

    def j(x):
        if x == right:
            return None
        if x == known:
            return ("KF", "divmod-remainder-small-dividend" if abs(a) < abs(b) else "divmod-remainder-sign")
        return f"expected {right[3:]}"
    return j


def div_pairs(r, n):
    yield from mix(pairs(r, n), quotient_edges(r, n))


def quotient_edges(r, n):
    for i in range(n):
        # quotient digits near the estimate's edges
        b = rnd_nat(r, 4) or 1
        q = rnd_nat(r, 3)
        m = r.choice([0, 1, b - 1, r.randrange(b)])
        a = b * q + m
        yield (-a if r.random() < .5 else a), (-b if r.random() < .5 else b)
        hi = r.choice([1, 2, 1 << 62, 1 << 63, B - 1, rnd_limb(r)])
        b = (hi << (64 * r.randrange(1, 4))) | r.randrange(B)
        a = (r.choice([hi, hi - 1, hi + 1, rnd_limb(r)]) << (64 * r.randrange(1, 6))) | rnd_nat(r, 2)
        yield a, b
        b = rnd_nat(r, 4) or 1     # a remainder that shares the divisor's upper digits
        k = 64 * r.randrange(0, 4)
        m = ((b >> k) << k) - r.randrange(0, 3)
        yield b * rnd_limb(r) + max(0, min(m, b - 1)), b


def jb_div(r, n):
    for a, b in div_pairs(r, n):
        if b == 0:
            yield f"jb\tdivmod\t{h(a)}\t{h(b)}", expect_panic
        else:
            yield f"jb\tdivmod\t{h(a)}\t{h(b)}", judge_div(a, b)


def shifts(r):
    k = hints.pick(r, .3, 0, 1 << 18)
    if k is not None:
        return k * r.choice([1, 1, 64]) if k < 2000 else k
    k = r.randrange(4)
    if k == 0:
        return r.choice([0, 1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256])
    if r.random() < .002:
        return r.choice([1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20]) + r.randrange(-70, 70)
    return r.randrange(0, 400)


def jb_shift(r, n):
    def one(a, s):
        A = h(a)
        yield f"jb\tshl\t{A}\t{h(s)}", expect_num(a << s if s >= 0 else a >> -s)
        yield f"jb\tshr\t{A}\t{h(s)}", expect_num(a >> s if s >= 0 else a << -s)
        yield f"jb\tshl_on_u64\t{A}\t{abs(s)}", expect_num(a << abs(s))
        yield f"jb\tshr_on_u64\t{A}\t{abs(s)}", expect_num(a >> abs(s))
    for a in edge_ints():
        for s in [0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 192, 200]:
            yield from one(a, s)
            yield from one(a, -s)
    for a in [0, 1, -1, 5, -5, B, -B, B * B - 1, -B * B, -(B - 1)]:
        for s in [B, B + 1, B * B, 5 * B]:
            yield f"jb\tshr\t{h(a)}\t{h(s)}", expect_num(-1 if a < 0 else 0)
            yield f"jb\tshl\t{h(a)}\t{h(-s)}", expect_num(-1 if a < 0 else 0)
            if a == 0:
                yield f"jb\tshl\t0\t{h(s)}", expect_num(0)
            else:
                yield f"jb\tshl\t{h(a)}\t{h(s)}", expect_panic
                yield f"jb\tshr\t{h(a)}\t{h(-s)}", expect_panic
        for s in [B - 1, 1 << 63]:
            yield f"jb\tshr\t{h(a)}\t{h(s)}", expect_num(-1 if a < 0 else 0)
            yield f"jb\tshl\t{h(a)}\t{h(-s)}", expect_num(-1 if a < 0 else 0)
    for i in range(n):
        s = shifts(r)
        yield from one(rnd_int(r, 5), -s if r.random() < .3 else s)


def jb_bits(r, n):
    for a, b in pairs(r, n):
        A, C = h(a), h(b)
        yield f"jb\tand\t{A}\t{C}", expect_num(a & b)
        yield f"jb\tor\t{A}\t{C}", expect_num(a | b)
        yield f"jb\txor\t{A}\t{C}", expect_num(a ^ b)
        yield f"jb\tnot\t{A}", expect_num(~a)


def exponent(r, a):
    e = hints.pick(r, .3, 0, 4000)
    return r.randrange(0, 40) if e is None or e * a.bit_length() > 60000 else e


def jb_pow(r, n):
    bases = [0, 1, -1, 2, -2, 3, -3, 10, B - 1, -(B - 1), B, -B, 1 - B, 1 << 32, B * B - 1, -(B * B)]
    for a in bases:
        for e in list(range(0, 18)) + [31, 32, 33, 63, 64, 65]:
            yield f"jb\tpow\t{h(a)}\t{h(e)}", expect_num(a ** e)
            yield f"jb\tpow_u64\t{h(a)}\t{e}", expect_num(a ** e)
        for e in [B - 1, B, B + 1, B * B, B * B + 1, 1 << 63]:
            if abs(a) <= 1:
                yield f"jb\tpow\t{h(a)}\t{h(e)}", expect_num((1 if e % 2 == 0 else a) if a != 0 else 0)
            elif e >= B:
                yield f"jb\tpow\t{h(a)}\t{h(e)}", expect_panic
        yield f"jb\tpow\t{h(a)}\t-1", expect_panic
    for i in range(n):
        a = rnd_int(r, 3)
        e = exponent(r, a)
        yield f"jb\tpow\t{h(a)}\t{h(e)}", expect_num(a ** e)
        yield f"jb\tpow_u64\t{h(a)}\t{e}", expect_num(a ** e)


# ------------------------------------------------------------------------------- BigUint / BigInt
def big_legacy(r, n):
    yield "bu\tone\t0", expect_num(1)
    for a in edge_ints() + [rnd_int(r, 5) for _ in range(300)]:
        yield f"tojs\t{h(a)}", expect_num(a)
        if abs(a) < B:
            yield f"bu\tfrom_u64\t{abs(a)}", expect_num(abs(a))
            yield f"bi\tfrom_u64\t{abs(a)}", expect_num(abs(a))
        if -(1 << 63) <= a < (1 << 63):
            yield f"bi\tfrom_i64\t{a}", expect_num(a)
    for a, b in pairs(r, n):
        A, C = h(a), h(b)
        x, y = abs(a), abs(b)
        yield f"bu\tadd\t{A}\t{C}", expect_num(x + y)
        yield f"bu\tsub\t{A}\t{C}", expect_num(max(0, x - y))
        yield f"bu\tmul\t{A}\t{C}", expect_num(x * y)
        yield f"bu\tcmp\t{A}\t{C}", expect(cmpw(x, y))
        yield f"bu\tpcmp\t{A}\t{C}", expect(cmpw(x, y))
        yield f"bi\tadd\t{A}\t{C}", expect_num(a + b)
        yield f"bi\tsub\t{A}\t{C}", expect_num(a - b)
        yield f"bi\tmul\t{A}\t{C}", expect_num(a * b)
        yield f"bi\tcmp\t{A}\t{C}", expect(cmpw(a, b))
        yield f"bi\tpcmp\t{A}\t{C}", expect(cmpw(a, b))
        yield f"bi\tneg\t{A}", expect_num(-a)
        yield f"bi\tabs\t{A}", expect_num(abs(a))
        yield f"bu\tlast_bit\t{A}", expect(f"ok {x & 1}")
        yield f"bu\tis_zero\t{A}", expect("ok " + str(x == 0).lower())
        yield f"bu\tis_one\t{A}", expect("ok " + str(x == 1).lower())
        yield f"bi\tis_zero\t{A}", expect("ok " + str(x == 0).lower())
        yield f"bu\tto_big_int\t{A}", expect_num(x)
        if x < B:
            yield f"bu\tfrom_u64\t{x}", expect_num(x)
            yield f"bi\tfrom_u64\t{x}", expect_num(x)
        if -(1 << 63) <= a < (1 << 63):
            yield f"bi\tfrom_i64\t{a}", expect_num(a)


def big_pow(r, n):
    for a in [0, 1, 2, 3, 10, B - 1, B, B + 1, B * B - 1]:
        for e in list(range(0, 18)) + [31, 32, 33, 63, 64, 65]:
            yield f"bu\tpow\t{h(a)}\t{h(e)}", expect_num(a ** e)
            yield f"bu\tpow_u64\t{h(a)}\t{e}", expect_num(a ** e)
        for e in [B - 1, B, B + 1]:
            if a <= 1:
                yield f"bu\tpow\t{h(a)}\t{h(e)}", expect_num(a)
            elif e >= B:
                yield f"bu\tpow\t{h(a)}\t{h(e)}", expect_panic
    for i in range(n):
        a = rnd_nat(r, 3)
        e = exponent(r, a)
        yield f"bu\tpow\t{h(a)}\t{h(e)}", expect_num(a ** e)
        yield f"bu\tpow_u64\t{h(a)}\t{e}", expect_num(a ** e)


def big_div(r, n):
    for a, b in div_pairs(r, n):
        A, C = h(a), h(b)
        x, y = abs(a), abs(b)
        if b == 0:
            for o in ("bu\tdivmod", "bu\tdiv", "bi\tdivmod", "bi\tdiv"):
                yield f"{o}\t{A}\t{C}", expect_panic
            continue
        q, m = tdiv(a, b)
        yield f"bu\tdivmod\t{A}\t{C}", expect_num(x // y, x % y)
        yield f"bu\tdiv\t{A}\t{C}", expect_num(x // y)
        yield f"bi\tdivmod\t{A}\t{C}", expect_num(q, m)
        yield f"bi\tdiv\t{A}\t{C}", expect_num(q)


def big_shift(r, n):
    def one(x, s):
        yield f"bu\tshl\t{h(x)}\t{h(s)}", expect_num(x << s)
        yield f"bu\tshr\t{h(x)}\t{h(s)}", expect_num(x >> s)
    for a in edge_ints():
        if a >= 0:
            for s in [0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 192, 200]:
                yield from one(a, s)
    for x in [0, 1, B, B * B - 1]:
        for s in [B, B + 1, B * B + 3]:
            yield f"bu\tshr\t{h(x)}\t{h(s)}", expect_num(0)
            yield f"bu\tshl\t{h(x)}\t{h(s)}", expect_num(0) if x == 0 else expect_panic
    for i in range(n):
        yield from one(rnd_nat(r, 5), shifts(r))


def rng(seed, prop):
    return random.Random(f"{seed}/{prop}")


# ---- range maps ----
CH_EDGE = [0, 1, 2, 9, 10, 48, 57, 65, 97, 122, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffe, 0xffff, 0x10000, 0x10fffe, 0x10ffff]


def rnd_char(r):
    if r.random() < 0.4:
        return r.choice(CH_EDGE)
    if r.random() < 0.6:
        return r.randrange(0, 40)
    x = r.randrange(0, 0x110000 - 2048)
    return x if x < 0xd800 else x + 2048


def range_maps(r, n):
    """maps are generated without conflicts; the oracle is the pointwise meaning"""
    def prevc(c):
        return 0xd7ff if c == 0xe000 else c - 1

    def look(m, k):
        kind = m[0]
        if kind == "r":
            return m[3] if m[1] <= k <= m[2] else None
        if kind == "o":
            return m[2] if k == m[1] else None
        for key, v in m[1]:
            if k <= key:
                return v
        return None

    def txt(m):
        if m[0] == "e":
            return "e:" + ",".join(f"{k}={'-' if v is None else v}" for k, v in m[1])
        return ":".join(str(x) for x in m)

    def points(m):
        if m[0] == "r":
            return [m[1], m[2], prevc(m[1])]
        if m[0] == "o":
            return [m[1], prevc(m[1])]
        return [k for k, _ in m[1]] + [prevc(k) for k, _ in m[1]]

    def mk(r):
        k = r.randrange(3)
        v = r.randrange(3)
        if k == 0:
            a, b = sorted((rnd_char(r), rnd_char(r)))
            return ("r", a, b, v)
        if k == 1:
            return ("o", rnd_char(r), v)
        m = hints.pick(r, .1, 0, 700)
        if m is None:
            m = r.randrange(0, 9) if r.random() < .995 else r.choice([127, 129, 200, 257, 300, 513])
        ks = sorted({rnd_char(r) for _ in range(m)})
        if len(ks) > 20:
            ks = sorted({r.randrange(0, 0xd000) for _ in range(len(ks))} | set(ks))
        return ("e", [(c, r.choice([None, None, v, v if r.random() < .7 else (v + 1) % 3])) for c in ks])

    def succ(c):
        return 0xe000 if c == 0xd7ff else c + 1
    def item(kind, maps):
        pts = {0, 0x10ffff, rnd_char(r)}
        for x in maps:
            for p in points(x):
                pts.update(q for q in (p, succ(p)) if 0 <= q <= 0x10ffff)
        pts = sorted(pts)
        want = []
        for p in pts:
            vs = {look(x, p) for x in maps} - {None}
            want.append(str(vs.pop()) if vs else "-")
        return "rm\t%s\t%s\t%s" % (kind, "|".join(txt(m) for m in maps), ",".join(map(str, pts))), expect("ok " + ",".join(want))

    # maps of every size, maps that meet with what they share, and lists of so many
    for m in [*hints.near(0, 700), *range(0, 40), 63, 64, 65, 127, 128, 129, 255, 256, 257]:
        for step, off in ((1, 3), (2, 0xd7ff - 2 * m), (7, 60)):
            ks = [k for k in range(off, off + step * m, step) if 0 <= k < 0xd800]
            e = ("e", [(k, [0, None, 1][j % 3]) for j, k in enumerate(ks)])
            yield item("id", [e])
            yield item("merge", [e, e])
            yield item("merge", [e, ("e", [])])
            yield item("merge", [("r", 0xe000, 0xe005, 2), e])
            if ks:
                yield item("merge", [e, ("o", ks[-1] + 1 if ks[-1] < 0xd7ff else 0xe000, 1)])
                yield item("merge", [("e", [(k, 1) for k in ks]), ("r", ks[m // 2] if m // 2 < len(ks) else ks[0], ks[-1], 1)])
        if m < 70:
            yield item("list", [("o", 2 * j, j % 3) for j in range(m)])
            yield item("list", [("r", 2 * j, 2 * j + 1, 1) for j in range(m)][::-1])
    for i in range(n):
        kind = r.choice(["id", "merge", "merge", "list"])
        maps = []
        for _ in range({"id": 1, "merge": 2}.get(kind) or hints.pick(r, .1, 0, 40) or r.randrange(0, 6)):
            for _try in range(20):
                m = mk(r)
                pts = {0, 0x10ffff}
                for x in maps + [m]:
                    for p in points(x):
                        pts.update(q for q in (p, succ(p)) if 0 <= q <= 0x10ffff)
                ok = all(len({look(x, p) for x in maps + [m]} - {None}) <= 1 for p in pts)
                if ok:
                    maps.append(m)
                    break
            else:
                maps.append(("e", []))
        yield item(kind, maps)
        if i % 50 == 0:   # a conflict is an error, never a silent choice
            c = rnd_char(r)
            yield f"rm\tmerge\to:{c}:1|r:{c}:{c}:2\t{c}", expect_panic


# ------------------------------------------------------------------------------------------ numbers
import struct  # noqa: E402
import sys     # noqa: E402
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)


def fbits(f):
    return struct.unpack("<Q", struct.pack("<d", f))[0]


def ratio_bits(n, d):
    """bits of the double nearest to n / d (n >= 0)"""
    try:
        return fbits(n / d)
    except OverflowError:
        return 0x7ff << 52


def dec_bits(sign, digits, e):
    """digits: str of decimal digits; the double nearest to digits * 10^e"""
    b = fbits(float(f"{digits or '0'}e{max(-10 ** 9, min(10 ** 9, e))}"))
    return b | ((1 << 63) if sign == "-" else 0)


OPS = "{}[]:,=;()."
WS = " \n\t\r"
TERM = set(WS) | set(OPS[:-1]) | {'"', "/"}
ID0 = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$")
DIG = set("0123456789")
ID1 = ID0 | DIG
ESC = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}


def enc(s):
    return "".join(f"{b:02x}" for b in s.encode("utf-8"))


def lex(s):
    """the tokens of a text: an oracle written from the grammar, not from the code"""
    out = []
    i, n = 0, len(s)

    def err(k):
        out.append("E" + k)
    while i < n:
        c = s[i]
        if c in OPS:
            out.append("O" + c)
            i += 1
        elif c == "\n":
            # white space from here on belongs to the line break, which is a token only when something follows
            while i < n and s[i] in WS:
                i += 1
            if i < n:
                out.append("L")
        elif c in WS:
            i += 1
        elif c in ID0:
            j = i
            while j < n and s[j] in ID1:
                j += 1
            out.append("I" + enc(s[i:j]))
            i = j
        elif c == "/":
            if i + 1 >= n:
                err("UnexpectedCharacter")
                i = n
            elif s[i + 1] == "/":
                j = i + 2
                while j < n and s[j] not in "\n\r":
                    j += 1
                if j < n:
                    while j < n and s[j] in WS:
                        j += 1
                    if j < n:
                        out.append("L")
                i = j
            elif s[i + 1] == "*":
                j = s.find("*/", i + 2)
                if j < 0:
                    err("CommentClosingExpected")
                    i = n
                else:
                    i = j + 2
            else:
                err("UnexpectedCharacter")
                i += 2
        elif c == '"':
            buf = []
            i += 1
            done = False
            while i < n and not done:
                c = s[i]
                i += 1
                if c == '"':
                    out.append("S" + enc("".join(buf)))
                    done = True
                elif c != "\\":
                    buf.append(c)
                else:
                    if i >= n:
                        break
                    e = s[i]
                    if e in ESC:
                        buf.append(ESC[e])
                        i += 1
                    elif e == "u":
                        i += 1
                        k = 0
                        v = 0
                        while k < 4 and i < n and s[i] in "0123456789abcdefABCDEF":
                            v = v * 16 + int(s[i], 16)
                            i += 1
                            k += 1
                        if k < 4:
                            if i < n:
                                err("InvalidHex")
                        elif 0xd800 <= v <= 0xdfff:
                            err("InvalidHex")     # the string is given up
                            done = True
                        else:
                            buf.append(chr(v))
                    else:
                        err("UnexpectedCharacter")
            if not done:
                err("MissingQuotes")
        elif c in DIG or c == "-":
            sign = "-" if c == "-" else ""
            j = i + (1 if c == "-" else 0)
            k = j
            if k < n and s[k] in DIG:
                k += 1
                if s[j] != "0":
                    while k < n and s[k] in DIG:
                        k += 1
                ip = s[j:k]
                fp, ex, good, isbig = "", 0, True, False
                if k < n and s[k] == "n":
                    k += 1
                    isbig = True
                else:
                    if k < n and s[k] == ".":
                        k += 1
                        m = k
                        while k < n and s[k] in DIG:
                            k += 1
                        fp = s[m:k]
                        good = bool(fp)
                    if good and k < n and s[k] in "eE":
                        k += 1
                        m = k
                        if k < n and s[k] in "+-":
                            k += 1
                        m2 = k
                        while k < n and s[k] in DIG:
                            k += 1
                        good = k > m2
                        if good:
                            ex = int(s[m:k])
                if good and (k >= n or s[k] in TERM):
                    if isbig:
                        v = int(ip)
                        out.append("B" + num(-v if sign else v))
                    else:
                        out.append(f"N{dec_bits(sign, ip + fp, ex - len(fp)):016x}")
                else:
                    err("InvalidNumber")
                i = k
            else:
                err("InvalidNumber")
                i = k
        else:
            err("UnexpectedCharacter")
            i += 1
    return out


def tok_req(s):
    return "tok\t" + enc(s), expect("ok " + " ".join(lex(s)))


def digits(r, n):
    if n > 1 and hints.INTS and r.random() < .3:
        n = hints.pick(r, 1, 1, 2000) or n
    k = r.randrange(4)
    if k == 0:
        return "".join(r.choice("09") for _ in range(n))
    if k == 1:
        return r.choice("123456789") + "0" * (n - 1)
    return "".join(r.choice("0123456789") for _ in range(n))


def hbits():
    return [b for b in hints.bits() if b < 0x7ff << 52] if hints.INTS or hints.FLOATS else []


def half_way(r):
    """a decimal literal at, or next to, the middle of two neighbouring doubles"""
    b = r.choice([*hbits(), 0, 1, 2, 3, (1 << 52) - 2, (1 << 52) - 1, 1 << 52, (1 << 52) + 1, (0x7fe << 52) + (1 << 52) - 1, (0x7fe << 52), r.randrange(0, 0x7ff << 52), (r.randrange(0x7ff) << 52) + r.choice([0, 1, (1 << 52) - 1]), r.randrange(1 << 52), (r.randrange(1023 - 60, 1023 + 70) << 52) + r.randrange(1 << 52)])
    f, g = (b, 0) if b >> 52 == 0 else ((b & ((1 << 52) - 1)) | (1 << 52), (b >> 52) - 1)
    m = 2 * f + 1             # middle, times 2^(g - 1075)
    e2 = g - 1075
    if e2 >= 0:
        dg, e10 = m << e2, 0
    else:
        dg, e10 = m * 5 ** -e2, e2
    k = r.randrange(4)
    if k == 1:
        dg, e10 = dg * 10 + 1, e10 - 1
    elif k == 2:
        dg, e10 = dg * 10 - 1, e10 - 1
    elif k == 3:
        z = r.randrange(1, 30)
        dg, e10 = dg * 10 ** z + r.choice([-1, 0, 1]), e10 - z
    return str(dg), e10


def literal(r):
    k = r.randrange(6)
    s = r.choice(["", "-"])
    if k == 0:
        dg, e = half_way(r)
        if e < 0 and r.random() < .5 and len(dg) > -e:
            return s + dg[:e] + "." + dg[e:]
        return s + dg[0] + ("." + dg[1:] if len(dg) > 1 else "") + "e" + str(e + len(dg) - 1)
    ip = "0" if r.random() < .3 else r.choice("123456789") + digits(r, r.choice([1, 2, 5, 17, 20, 40]))[1:]
    fp = "." + digits(r, r.choice([1, 2, 7, 16, 25, 60])) if r.random() < .6 else ""
    ex = ""
    if r.random() < .7:
        e = r.choice([0, 1, 5, 10, 15, 16, 22, 23, 50, 290, 300, 305, 307, 308, 309, 310, 320, 322, 323, 324, 325, 330, 345, 399, 400, 401, 410, 1000, 10 ** 6, 10 ** 12, 2 ** 63 - 1, 2 ** 63, 10 ** 20, r.randrange(0, 340)])
        if hints.INTS and r.random() < .4:
            e = hints.pick(r, 1, 0, 1 << 70) or e
        ex = r.choice("eE") + r.choice(["", "+", "-", "-"]) + ("000" if r.random() < .05 else "") + str(e)
    return s + ip + fp + ex


def dec_num(r, n):
    fixed = ["0", "-0", "-0.0", "0e5", "0.0e-999999999999999999999", "1e400", "-1e400", "1e-400", "1e99999999999999999999999", "1e-99999999999999999999999", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072014e-308", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880", "9007199254740993", "9007199254740991", "4503599627370497.5", "0.1", "0.30000000000000004", "123456789012345678901234567890", "1" + "0" * 400, "0." + "0" * 400 + "1e401", "0." + "0" * 330 + "3", "1" * 700, "1" * 700 + "e-690", "9" * 330 + "e-5000", "1e+05", "12345678901234567e-5"]
    for x in fixed + [str(v) for v in hints.near(0, 1 << 200)] + [repr(abs(f)) for f in hints.FLOATS]:
        for s in ("", "-"):
            if not (s and x[0] == "-"):
                yield tok_req(s + x)
    for e in range(-400, 330):
        for x in ("1", "-1", "9", "-9.9", "22250738585072014", "-17976931348623157", "4.940656458412465", "-123456789012345678901234567890"):
            yield tok_req(f"{x}e{e}")
    for i in range(n):
        k = i % 8
        if k < 5:
            yield tok_req(literal(r))
        elif k == 5:
            dg, e = half_way(r)
            sg = r.choice("+-")
            yield f"bf\tf64\t{h(int(dg))}\t{e}\t{sg}", expect(f"ok {dec_bits(sg, dg, e):016x}")
        elif k == 6:
            sig = rnd_nat(r, 3)
            if r.random() < .5:
                sig = r.randrange(1 << 52, 1 << 56)
            rem = r.random() < .5 and sig >= 1 << 53
            exp = hints.pick(r, .3, -3000, 3000)
            if exp is None:
                exp = r.choice([0, 1, -1, 960, 970, 971, 972, 1000, -1022, -1074, -1075, -1076, -1080, -1100, -1126, -1127, -1130, -1140, -2000, 2000, r.randrange(-1200, 1100)])
            sg = r.choice("+-")
            nn = (sig << 80) + (1 if rem else 0)
            b = ratio_bits(nn << max(exp, 0), 1 << (80 + max(-exp, 0)))
            yield f"bf\ttwo\t{h(sig)}\t{exp}\t{sg}\t{int(rem)}", expect(f"ok {b | ((1 << 63) if sg == '-' else 0):016x}")
        else:
            sig = rnd_nat(r, 3)
            e = r.choice([0, 0, 1, -1, 2, 5, 20, -20, 60, -60, r.randrange(-200, 200)])
            p = hints.pick(r, .3, 1, 255) or r.choice([1, 2, 52, 53, 54, 63, 64, 65, 128, 255, r.randrange(1, 256)])
            e = e if not hints.INTS or r.random() < .7 else hints.pick(r, 1, -400, 400) or e
            sg = r.choice("+-")

            def judge(a, sig=sig, e=e, p=p, sg=sg):
                f = a.split(" ")
                if f[0] != "ok" or len(f) != 5:
                    return "no result"
                s2, x, rem = int(f[1], 16), int(f[2]), f[4] == "1"
                if f[3] != sg:
                    return "wrong sign"
                if sig == 0:
                    return None if s2 == 0 and not rem else "expected zero"
                nn, dd = sig * 10 ** max(e, 0), 10 ** max(-e, 0)
                lo = (s2 << max(x, 0)) * dd
                hi = ((s2 + 1) << max(x, 0)) * dd
                v = nn << max(-x, 0)
                if not (lo <= v < hi) or rem != (v != lo):
                    return "not the value with the remainder flag"
                if not (1 << (p - 1) <= s2 < 1 << p):
                    return "wrong precision"
                return None
            yield f"bf\tbin\t{h(sig)}\t{e}\t{sg}\t{p}", judge


# ------------------------------------------------------------------------------------------ tokens
FRAG = ["{", "}", "[", "]", ":", ",", "=", ";", "(", ")", ".", " ", "\n", "\t", "\r", "\r\n", "\n ", '"', "\\", "/", "//", "/*", "*/", "*", "-", "+", "e", "E", "n", "0", "1", "9", "a", "z", "A", "Z", "_", "$", "u", "b", "f", "@", "#", "'", "`", "~", "\x00", "\x0b", "\x0c", "\x7f", "\xa0", "é", "ß", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "true", "null", "const", "export default", "module.exports", "import", '"a"', '"', '\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u", "\\u0000", "\\u00e9", "\\uD7FF", "\\ue000", "\\uFFFF", "\\ud800", "\\uDFFF", "\\u12", "\\u12g4", "\\u9A0f", "\\x", "\\'", "0n", "-0n", "12n", "-123456789012345678901234567890n", "1.5", "-0.0", "1e5", "1e+", "1e-3", "1.e", "01", "0x1", "1a", "1_", "0.", ".5", "-a", "--1", "1-2", "1+2", "1.2.3", "1n2", "1.5n", "/ /", "/**/", "/***/", "/*/", "/* * /*/", "//x\n", "//x\r", "//\n\n"]


# characters some table of characters gives a meaning: spaces and breaks of lines of other grammars, the edges of
# planes and of surrogates, the mark of byte order, the replacement character
SPECIAL = [0x1680, 0x180e, 0x2000, 0x200a, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x3000, 0x2212, 0x2215, 0x2018, 0x201c, 0x201d, 0xff02, 0xff0d, 0xff10, 0xff19, 0xff21, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x660, 0x966, 0x391, 0x410, 0x4e00, 0x4e2d, 0x9fff, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0x10000, 0x1f600, 0x1fffe, 0xe0001, 0xfffff, 0x10fffe, 0x10ffff]


def swept(lo, hi, step):
    for a in range(lo, hi, step * 64):
        cs = [chr(c) for c in range(a, min(a + step * 64, hi), step) if not 0xd800 <= c < 0xe000]
        for pre, post in (("", ""), ("a", " "), ('"', '"'), ('"\\', '" '), ("1", " "), ("/*", "*/"), ("//", "\n"), ("\n", "")):
            yield tok_req("".join(pre + c + post for c in cs))


def tokens(r, n):
    for c in [*range(0, 0x250), *SPECIAL]:
        for t in (chr(c), "a" + chr(c) + "1", '"' + chr(c), '"\\' + chr(c) + 'x"', '"\\u' + chr(c) + '000"', '"\\u00' + chr(c) + '1"', "0" + chr(c), "12" + chr(c) + "3", "-" + chr(c) + "5", "1." + chr(c), "1.5" + chr(c), "1e" + chr(c) + "2", "1e+" + chr(c), "1e5" + chr(c), "3n" + chr(c), "\n" + chr(c), "/" + chr(c) + "a", "//" + chr(c) + "a", "/*" + chr(c) + "*/", "/**" + chr(c) + "*/", "{" + chr(c)):
            yield tok_req(t)
    for a in FRAG:
        for b in FRAG:
            yield tok_req(a + b)
    k = 65536 + 5
    for t in ('"' + "s" * k + '" 1', '"' + "\\n" * k + '"', "a" * k + " b", "/*" + "x" * k + "*/1", "//" + "x" * k + "\n1", "[" * k, "1 " * k, " " * k + "1", "\n" * k + "1", "@" * k, '"\\u0041' * 3 + "\\u00e9" * k + '"', "0." + "0" * k + "1", "1e" + "0" * k + "5", "1" + "0" * 9000, "7" * 9000 + "n", "-" * k, "0." + "5" * 9000):
        yield tok_req(t)
    yield from swept(0x250, 0x10000, 1)
    yield from swept(0x10000, 0x110000, 61)
    for i in range(n):
        k = r.randrange(5)
        if k == 0:
            s = '"' + "".join(r.choice(FRAG) for _ in range(r.randrange(0, 6))) + r.choice(['"', "", '" '])
        elif k == 1:
            s = r.choice(["", " ", "["]) + "".join(literal(r) + r.choice(["", " ", ",", "]", "n", "e", ".", '"', "/", "x"]) for _ in range(r.randrange(1, 3)))
        else:
            s = "".join(r.choice(FRAG) for _ in range(r.randrange(1, 9)))
        if i % 64 == 1:
            # one token, or one run of tokens, far longer than anything a test has
            m = hints.pick(r, .5, 0, 5000) or r.choice([17, 33, 65, 130, 257, 300, 1030])
            f = r.choice(FRAG)
            s = r.choice(["", '"', "/*", "//", "[", "a", "1", "-0."]) + f * m + r.choice(["", '"', "*/", "\n", "n", " 1", "]"])
        if r.random() < .1:
            s += chr(r.choice([r.randrange(0, 0xd800), r.randrange(0xe000, 0x110000)]))
        yield tok_req(s)


from falsp import documents, modules, paths  # noqa: E402,F401  (the generators of the parser)
from falss import djs_texts, json_texts  # noqa: E402,F401
from falsa import any_values  # noqa: E402,F401
from falsc import programs  # noqa: E402,F401
from falsm import mem_ops, mem_layouts  # noqa: E402,F401
