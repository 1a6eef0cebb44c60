"""Falsifier for references and blocks (see fals.py): histories of operations against a heap of objects, layouts, too long arrays."""
SIZES = []      # further ones, of hints
BITS = [0, 1 << 63, 0x3ff0 << 48, 0xbff8 << 48, 0x7ff0 << 48, 0xfff0 << 48, 1, 0x7fef << 48 | (1 << 48) - 1]
M = (1 << 64) - 1


class Obj:
    __slots__ = ("k", "c", "n", "id")

    def __init__(self, k, c, n=0, i=0):
        self.k, self.c, self.n, self.id = k, c, n, i

    def parts(self):
        if self.k == "a":
            return self.c
        if self.k == "o":
            return [x for p in self.c for x in p]
        return []


NULL = ("z",)


def show(v, d):
    if d == 0:
        return ".."
    if isinstance(v, tuple):
        return {"z": "z", "n": "n%x", "b": "b%s"}[v[0]] % v[1:]
    if v.k == "s":
        return "s" + ".".join("%x" % x for x in v.c)
    if v.k == "i":
        return "i" + v.c
    if v.k == "o":
        return "o(" + ";".join(show(a, 1) + ":" + show(b, d - 1) for a, b in v.c) + ")"
    if v.k == "a":
        return "a(" + ";".join(show(x, d - 1) for x in v.c) + ")"
    return "g%d" % v.n


def reach(slots):
    seen, t = {}, [s[1] for s in slots if s and isinstance(s[1], Obj)]
    while t:
        o = t.pop()
        if id(o) not in seen:
            seen[id(o)] = o
            t += [x for x in o.parts() if isinstance(x, Obj)]
    return seen


def refs(slots, o):
    return sum(s is not None and s[1] is o for s in slots) + sum(x is o for b in reach(slots).values() for x in b.parts())


def expect(ops):
    """per op (live, res), contents, drops; or None where the history is not one the driver accepts"""
    K = 8
    slots, drops, gs, out = [None] * K, [0] * 32, [], []

    def val(j):
        s = slots[j]
        return s[1] if s and s[0] in "AT" and (isinstance(s[1], tuple) or s[1].k != "g") else NULL
    for op in ops:
        w = op.split(",")
        k, o = int(w[1]), w[0]
        old, slots[k] = slots[k], None
        res, new = "", None

        def n(i):
            return int(w[i])
        if o in "sS":
            new = ("AM"[o == "S"], Obj("s", [(k * 77 + i) & 0xffff for i in range(n(2))]))
        elif o in "aA":
            new = ("AM"[o == "A"], Obj("a", [val(int(x)) for x in w[2:] if x]))
        elif o in "oO":
            new = ("AM"[o == "O"], Obj("o", [(Obj("s", [97] * (i + 1)), v) for i, v in enumerate([val(int(x)) for x in w[2:] if x])]))
        elif o in "bB":
            new = ("AM"[o == "B"], Obj("i", (w[3] if n(2) else "") + ".".join("%x" % ((i + 1) * 0x100000001) for i in range(n(2)))))
        elif o == "n":
            new = ("A", ("n", int(w[2], 16)))
        elif o == "z":
            new = ("A", NULL)
        elif o == "t":
            new = ("A", ("b", "true" if w[2] == "1" else "false"))
        elif o == "g":
            new = ("M", Obj("g", [], n(2), n(3)))
            gs.append(new[1])
        elif o == "c":
            s = slots[n(2)]
            new = s if s and s[0] != "M" else None
        elif o == "l":
            slots[n(2)] = None
            new = old
        elif o == "m":
            new = ("T", old[1]) if old and old[0] == "A" and isinstance(old[1], Obj) else old
        elif o == "y":
            new = ("A", old[1]) if old and old[0] == "T" and old[1].k != "g" else old
        elif o == "w":
            new = old
            if old and old[0] == "T" and refs(slots, old[1]) == 0:
                new = ("M", old[1])
            res = "01"[bool(new) and new[0] == "M"]
        elif o == "r":
            new = ("T", old[1]) if old and old[0] == "M" else old
        elif o == "x":
            new, x, i = old, val(n(3)), n(2)
            if old and old[0] == "M" and old[1].k in "ao" and i < len(old[1].c):
                old[1].c[i] = x if old[1].k == "a" else (old[1].c[i][0], x)
        elif o == "v":
            new = ("T", old[1]) if old and old[0] == "A" and isinstance(old[1], Obj) else old
        elif o == "p":
            new = old
            if old and old[0] == "A":
                ok = n(2) == (3 + "soai".index(old[1].k) if isinstance(old[1], Obj) else "nbz".index(old[1][0]))
                res = "01"[ok]
                new = None if not ok else old if n(2) < 3 else ("T", old[1])
        elif o == "q":
            new = old
            if old and old[0] == "A":
                k0 = old[1].k if isinstance(old[1], Obj) else old[1][0]
                res = "".join("01"[x] for x in [k0 == c for c in "soain"] + [isinstance(old[1], Obj)])
        elif o == "f":
            new = old
            if old and old[0] == "A":
                t = []
                if isinstance(old[1], Obj) and old[1].k == "o":
                    t = old[1].c
                elif isinstance(old[1], Obj) and old[1].k == "a":
                    t = [(("n", FL[i]), x) for i, x in enumerate(old[1].c)]
                stop = n(2)
                res = "01"[len(t) <= stop] + "".join("/%s=%s" % (show(a, 2), show(b, 2)) for a, b in t[:stop + 1])
        elif o == "h":
            d = drops[n(2)]
        slots[k] = new
        live = reach(slots)
        for g in [g for g in gs if id(g) not in live]:
            gs.remove(g)
            drops[g.id] += g.n
            drops[g.id + 16] += 1
        if o == "h":
            d = drops[n(2)]
            drops[n(2)] += 1
            res = "7%d%ds%dm%d" % (n(2), d, d, d + 1)
        out.append((len(live), res))
    cont = ["-" if not s else ("m" if s[0] == "M" else "") + show(s[1], 3) for s in slots]
    for g in gs:
        drops[g.id] += g.n
        drops[g.id + 16] += 1
    return out, cont, drops


import struct  # noqa: E402
FL = [struct.unpack("<Q", struct.pack("<d", float(i)))[0] for i in range(512)]
BAD = {1: "a block is freed twice", 2: "a block is freed with another size or alignment", 4: "written outside of a block", 16: "a block of size zero", 32: "a pointer inside of a block is freed"}


def flags(b, mask):
    return "; ".join(t for k, t in BAD.items() if b & mask & k)


def dead(ans):
    return None if ans.startswith("ok") else "no result: " + ans[:80]


def judge_ops(ops, loc):
    out, cont, drops = expect(ops)

    def f(ans):
        if dead(ans):
            return dead(ans)
        p = ans[3:].split("|")
        if len(p) != 3:
            return "no result"
        for i, t in enumerate(p[0].split()):
            t, _, b = t.partition("#")
            if b:
                return f"op {i} ({ops[i]}): {flags(int(b), 63) or b}"
            live, _, res = t.partition(":")
            if res.endswith("!"):
                return f"op {i} ({ops[i]}): the manager's size or counter is not that of the blocks in use"
            if int(live) != out[i][0]:
                return f"after op {i} ({ops[i]}) {live} blocks are in use, {out[i][0]} are referred to"
            if res != out[i][1]:
                return f"op {i} ({ops[i]}) gives {res}, expected {out[i][1]}"
        if p[1].strip().split(" ") != cont:
            return f"contents {p[1].strip()}, expected {' '.join(cont)}"
        live, bad, size, d = p[2].split()
        if live != "0":
            return f"{live} blocks are in use after the last reference is dropped"
        if bad != "0":
            return flags(int(bad), 63) or "bad " + bad
        if size != "0":
            return f"size() is {size} after everything is freed"
        d = [int(x) for x in d.split(",")]
        if d[31]:
            return "something that is not a value is dropped"
        if d != drops:
            return f"drops {d}, expected {drops}"
        return None
    return f


def judge_layout(f0):
    """M02: only what the allocator saw"""
    def f(ans):
        if dead(ans):
            return dead(ans)
        p = ans[3:].split("|")
        if len(p) != 3:
            return "no result"
        for i, t in enumerate(p[0].split()):
            t, _, b = t.partition("#")
            if b and flags(int(b), 62):
                return f"op {i}: {flags(int(b), 62)}"
            if t.endswith("!"):
                return f"op {i}: the manager's size or counter is not that of the blocks in use"
        live, bad, size, d = p[2].split()
        if flags(int(bad), 62):
            return flags(int(bad), 62)
        if live == "0" and size != "0":
            return f"size() is {size} after everything is freed"
        return None
    return f


def eq(want, what):
    return lambda ans: None if ans == "ok " + want else f"{what}: {ans}, expected {want}"


def history(r, n):
    """mostly meaningful: which slots hold what is tracked loosely"""
    ops, kind, large = [], [""] * 8, []      # one large thing at most: what is shown grows with their product

    def pick(f):
        t = [i for i in range(8) if kind[i] in f]
        return r.choice(t) if t and r.random() < .95 else r.randrange(8)
    V = ("A", "T")
    while len(ops) < n:
        o = r.choice("sSaaAooObBnztggccccllddddmmmyywwwwwrrrxxxvvffhppq")
        k = r.randrange(8)
        if o in "sS":
            ops.append(f"{o},{k},{r.choice([0, 1, 2, 3, 5, 9] + SIZES)}")
            kind[k] = "AM"[o == "S"]
        elif o in "aAoO":
            ops.append(",".join([o, str(k)] + [str(pick(V)) for _ in range(r.choice([0, 1, 1, 2, 3]) if large or not SIZES or r.random() < .9 else large.append(r.choice(SIZES)) or large[0])]))
            kind[k] = "AM"[o in "AO"]
        elif o in "bB":
            ops.append(f"{o},{k},{r.choice([0, 1, 2, 3] + SIZES)},{r.choice(['', '-'])}")
            kind[k] = "AM"[o == "B"]
        elif o == "n":
            ops.append(f"n,{k},{r.choice(BITS):x}")
            kind[k] = "A"
        elif o == "z":
            ops.append(f"z,{k}")
            kind[k] = "A"
        elif o == "t":
            ops.append(f"t,{k},{r.randrange(2)}")
            kind[k] = "A"
        elif o == "g":
            ops.append(f"g,{k},{r.choice([0, 1, 2, 3, 7] + SIZES)},{r.randrange(15)}")
            kind[k] = "M"
        elif o == "c":
            j = pick(V)
            ops.append(f"c,{k},{j}")
            kind[k] = kind[j] if kind[j] != "M" and j != k else ""
        elif o == "l":
            k, j = pick(V + ("M",)), pick(V + ("M",))
            ops.append(f"l,{k},{j}")
            if j != k:
                kind[j] = ""
        elif o == "d":
            k = pick(V + ("M",))
            ops.append(f"d,{k}")
            kind[k] = ""
        elif o in "mv":
            k = pick(("A",))
            ops.append(f"{o},{k}")
            kind[k] = "T"
        elif o == "y":
            k = pick(("T",))
            ops.append(f"y,{k}")
            kind[k] = "A"
        elif o == "w":
            k = pick(("T",))
            ops.append(f"w,{k}")
            kind[k] = "M"
        elif o == "r":
            k = pick(("M",))
            ops.append(f"r,{k}")
            kind[k] = "T"
        elif o == "x":
            k = pick(("M",))
            ops.append(f"x,{k},{r.randrange(3)},{pick(V)}")
        elif o == "p":
            k = pick(("A",))
            ops.append(f"p,{k},{r.randrange(7)}")
            kind[k] = r.choice(["", "T"])
        elif o == "q":
            ops.append(f"q,{pick(('A',))}")
        elif o == "f":
            ops.append(f"f,{pick(('A',))},{r.choice([0, 1, 9])}")
        else:
            ops.append(f"h,{k},{r.randrange(15)}")
            kind[k] = ""
    # slots the loose tracking may have wrong: every op is defined on every slot
    return ops


# every kind of block through every way of ending it
ENDS = []
for mk in ["s,0,0", "s,0,3", "a,0", "a,0,1", "o,0", "o,0,1", "b,0,0,", "b,0,2,-"]:
    for e in ["d,0", "m,0 d,0", "v,0 d,0", "c,2,0 d,0 d,2", "c,2,0 d,2 d,0", "m,0 c,2,0 w,0 w,2 d,0 w,2 d,2", "m,0 w,0 r,0 c,2,0 y,2 d,0 d,2", "a,2,0 d,0 m,2 w,2 x,2,0,1 d,2", "o,2,0,0 d,0 d,2",
              "m,0 y,0 d,0", "v,0 w,0 d,0", "f,0,0 f,0,9 d,0", "c,2,0 c,3,2 c,4,3 d,3 d,0 d,4 d,2", "l,0,1 l,0,0 d,0", "m,0 y,0 m,0 y,0 c,2,0 m,2 d,0 w,2 d,2"] + [f"q,0 {c}p,0,{t} d,0 d,2" for t in range(7) for c in ("", "c,2,0 ")]:
        ENDS.append(("s,1,1 " + mk + " " + e).split(" "))
for g in ["g,0,0,3", "g,0,1,3", "g,0,4,3", "S,0,2", "A,0,1,1", "O,0,1", "B,0,2,-"]:
    for e in ["d,0", "r,0 d,0", "r,0 c,2,0 d,0 w,2 d,2", "r,0 c,2,0 w,0 d,2 w,0 r,0 d,0", "r,0 w,0 r,0 w,0 d,0", "x,0,0,1 x,0,1,1 r,0 c,1,0 d,0", "h,1,3 d,0 h,1,3"]:
        ENDS.append(("s,1,1 " + g + " " + e).split(" "))


def deep(r):
    """a value nested in a value, and the parts taken out of it"""
    ops = ["s,0,2"]
    for _ in range(r.randrange(1, 12)):
        ops.append(r.choice(["a,0,0", "a,0,0,0", "o,0,0", "o,0,0,0", "a,1,0 d,0 l,0,1 c,0,1 d,1", "m,0 y,0", "c,2,0", "v,0 y,0"]))
    ops += [r.choice(["d,0", "m,0 w,0 d,0", "m,0 w,0 r,0 d,0", "f,0,9 d,0", "d,2 d,0"])]
    return " ".join(ops).split(" ")


def counted():
    """so many references to one block, items, or units: for the sizes of hints"""
    for k in sorted(set(SIZES)):
        many = ",0" * k
        for h in (f"s,0,2 a,1{many} d,0 d,1", f"s,0,2 a,1{many} d,1 m,0 w,0 d,0", f"S,0,{k} r,0 c,1,0 w,0 d,1 w,0 d,0", f"s,0,{k} a,1,0,0 d,0 d,1", f"s,0,1 A,1{many} d,0 x,1,0,3 x,1,1,3 r,1 c,2,1 d,1 w,2 d,2", f"s,0,1 o,1{many} f,1,9 d,1 d,0", f"g,0,{k},3 r,0 c,1,0 d,0 w,1 d,1", f"B,0,{k},- r,0 y,0 c,1,0 d,1 d,0", f"a,0{many} " + "a,0,0 " * min(k, 40) + "d,0", f"a,0 " + "a,0,0 " * k + "d,0", "s,0,1 " + "c,1,0 d,1 " * k + "m,0 w,0 d,0"):
            yield [x for x in h.split(" ") if x]


def mem_ops(r, n):
    yield "mem\tthreads", eq("000000000011", "Send and Sync of values and references (the last two are u8's)")
    yield "mem\tpanics", lambda a: None if a in ("ok signal 6", "ok exit 2") else f"a panic in modify drops the value another number of times than once: {a}"
    for k in (0, 1, 2, 9):
        d = [0] * 32
        d[1] = 1
        for i in range(k):
            d[i % 8 + 2] += 1
        yield f"mem\tmodify\t{k}", eq("%d 0 0 %s" % (k + 1, ",".join(map(str, d))), "blocks and drops after modify")
    for m in "gl":
        for h in [*counted(), *ENDS]:
            yield f"mem\tops\t{m}\t{' '.join(h)}", judge_ops(h, m)
    for i in range(n):
        h = deep(r) if i % 4 == 3 else history(r, r.choice([3, 6, 12, 25, 60]))
        m = r.choice("gl")
        yield f"mem\tops\t{m}\t{' '.join(h)}", judge_ops(h, m)


def mem_layouts(r, n):
    yield "mem\tswap", lambda a: None if a == "ok 1 3" else ("KF", "swap-headers") if a == "ok 3 1" else f"the lengths of two arrays after swapping what they refer to: {a}"
    for m in "gl":
        yield f"mem\tfails\t{m}", lambda a: None if a in ("ok signal 6", "ok exit 101") else f"a request the system refuses: {a}"
        for h in range(6):
            for i in range(8):
                for k in (0, 1, 2, 3, 7, 8, 13, *([256, 65541] if i in (0, 7) else []), *SIZES):
                    yield f"mem\tlay\t{m}\t{h}\t{i}\t{k}", eq("true,0" + (",0" if m == "l" else ""), "a block with its header and items inside")
        for kind, size in (("a", 8), ("s", 2), ("b", 8), ("u", 1), ("l", 512), ("h", 24), ("x", 64)):
            for k in {1 << 63, M, M // size, (1 << 63) // size, (1 << 63) // size + 1, (1 << 64) // size, (1 << 64) // size + 1, (1 << 64) // size + 3, (1 << 63) + 7, M - 7, M - 63, ((1 << 63) - 1) // size}:
                # (a bigint's header holds its length as an isize: a longer one is a shorter one)
                if k <= (M >> 1 if kind == "b" else M) and k * size + 64 > (1 << 63):
                    yield f"mem\tlong\t{m}\t{kind}\t{k}", eq("refused", "an array that needs more bytes than there are")
        for h in [*counted(), *ENDS]:
            yield f"mem\tops\t{m}\t{' '.join(h)}", judge_layout(h)
    for i in range(n):
        m = r.choice("gl")
        if i % 2:
            yield f"mem\tlay\t{m}\t{r.randrange(6)}\t{r.randrange(8)}\t{r.choice([r.randrange(0, 250)] + SIZES)}", eq("true,0" + (",0" if m == "l" else ""), "a block with its header and items inside")
        else:
            h = history(r, r.choice([6, 12, 25]))
            yield f"mem\tops\t{m}\t{' '.join(h)}", judge_layout(h)
