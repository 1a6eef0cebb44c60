"""Falsifier for values kept in an Any (see fals.py): every kind of value against every test and every conversion."""
from falss import BITS, r_graph, r_num, r_str, send

KIND = {"N": ("Number", 0), "T": ("Bool", 1), "F": ("Bool", 1), "Z": ("Null", 2), "S": ("String", 3), "O": ("Object", 4), "A": ("Array", 5), "B": ("Bigint", 6)}
M = (1 << 64) - 1
NANS = [0x7ff8 << 48, 0xfff8 << 48, 0x7ff0 << 48 | 1, 0xfff0 << 48 | 1, M, M >> 1, 0xfffc << 48, 0xfffd << 48 | 0x123456789abc, 0xfffe << 48 | 8, 0xffff << 48 | 16, 0xfffa << 48, 0xfffb << 48, 0xfff9 << 48,
        0xfff8 << 48 | 1, 0x7ff4 << 48, 0xfff4 << 48, 0xfff7 << 48 | 0xffffffffffff, 0xfff0 << 48, 0x7ff0 << 48, 0xffef << 48 | 0xffffffffffff]


def nan(b):
    return b >> 52 & 0x7ff == 0x7ff and b & (1 << 52) - 1 != 0


def limbs(h):
    v, r = int(h or "0", 16), []
    v = abs(v)
    while v:
        r.append(v & M)
        v >>= 64
    return r


def judge(g, g2):
    def f(ans):
        w = ans.split(" ")
        if w[0] != "ok" or len(w) != 6:
            return "no result"
        n = g[-1]
        name, i = KIND[n[0]]
        if w[1] != name:
            return f"its type is {w[1]}, expected {name}"
        if w[2] != "".join("01"[k == i] for k in range(7)):
            return f"is: {w[2]} for a {name}"
        # commas inside lists
        t, cur, d = [], "", 0
        for c in w[3]:
            d += (c == "[") - (c == "]")
            if c == "," and d == 0:
                t.append(cur)
                cur = ""
            else:
                cur += c
        t.append(cur)
        if len(t) != 7 or [k for k in range(7) if t[k] != "-"] != [i]:
            return f"try_move: {w[3]} for a {name}"
        v, _, at = t[i].partition("@")
        want = {"N": lambda: "n%x" % n[1], "T": lambda: "btrue", "F": lambda: "bfalse", "Z": lambda: "z", "S": lambda: "s[%s]" % ",".join(map(str, n[1])),
                "O": lambda: "o%d" % len(n[1]), "A": lambda: "a%d" % len(n[1]), "B": lambda: "i[%s]" % ",".join(map(str, limbs(n[1])))}[n[0]]()
        if n[0] == "N" and nan(n[1]):
            if not nan(int(v[1:], 16)):
                return f"NaN comes back as {v}"
        elif v != want:
            return f"comes back as {v}, expected {want}"
        r = w[4].split(",")
        if [k for k in range(4) if r[k] != "-"] != ([i - 3] if i >= 3 else []):
            return f"try_ref: {w[4]} for a {name}"
        if i >= 3 and r[i - 3] != "@" + at:
            return "try_ref and try_move give different places"
        m = g2[-1]
        if w[5][4] == "1" and not (n[0] == "N" and n[1] == 1):
            return "a number with the address of the block as its bits equals the value"
        if w[5][5:] != "1":
            return "an equal value has another hash"
        w[5] = w[5][:4]
        eq = i < 3 and m[0] == n[0] and (n[0] != "N" or m[1] == n[1] or nan(m[1]) and nan(n[1]))
        if n[0] == m[0] == "N" and nan(n[1]) and nan(m[1]):
            w[5] = w[5][0] + "11" + w[5][3]
        if w[5] != "1" + ("11" if eq else "00") + "01"[i >= 3]:
            return f"equal to its copy, to another value, the other way, is a reference: {w[5]}"
        return None
    return f


def has(t, m, v):
    return v & m == t


def judge_bs(op, t, m, bt, bm, v, s):
    def one(w, t, m):
        return None if w == ["%x" % t, "%x" % m, "%x" % (t | M ^ m), "%x" % (M ^ m), str(has(t, m, v)).lower()] else f"{w} for tag {t:x} mask {m:x}"

    def f(ans):
        w = ans.split(" ")
        if op == "orx" and m != bm:
            return None if w[0] == "panic" else "two sets with different free bits were joined"
        if w[0] != "ok":
            return "no result"
        w = w[1:]
        if op == "tag":
            return one(w, s, s)
        if op == "one":
            return one(w, t, m)
        if op in ("or", "orx"):
            rt, ru = t & bt, (t | M ^ m) | (bt | M ^ bm)
            return one(w, rt, M ^ ru ^ rt)
        if op == "and":
            rt, ru = t | bt, (t | M ^ m) & (bt | M ^ bm)
            return one(w, rt, M ^ ru ^ rt)
        if op == "su":
            return one(w, t, M ^ (s & ~t))
        if op == "split":
            return one(w[:5], t, m | s) or one(w[5:], t | s, m | s)
        return None if w == ["%x" % (t | s), "true", "%x" % s] else f"{w}"
    return f


def any_values(r, n):
    leaves = [("N", b) for b in BITS + NANS] + [("T",), ("F",), ("Z",), ("S", []), ("S", [0, 65535]), ("A", []), ("O", []), ("B", ""), ("B", "-1"), ("B", "123456789abcdef0123")]
    for a in leaves:
        for b in leaves:
            yield f"any\t{send([a])}\t{send([b])}", judge([a], [b])
    for i in range(n):
        g, h = r_graph(r, r.choice([1, 2, 3, 6]), True), [r.choice(leaves)]
        if i % 3 == 0:
            b = r.getrandbits(64)
            g = [("N", b | (r.choice([0x7ff, 0xfff]) << 52 if i % 2 else 0))]
        elif i % 3 == 1:
            g = [("S", r_str(r))]
        yield f"any\t{send(g)}\t{send(h)}", judge(g, h)
        m = r.getrandbits(64) | (r.getrandbits(64) if r.random() < .5 else 0)
        t, v = r.getrandbits(64) & m, r.getrandbits(64)
        bm = r.getrandbits(64) | (m if r.random() < .5 else 0)
        bt = (t & m | v & ~m) & bm & M      # a word of both
        if r.random() < .5:
            v = t | v & ~m
        op = r.choice(["one", "or", "orx", "tag", "and", "split", "su", "typed"])
        if op == "orx" and r.random() < .9:
            bt, bm = v & m, m
        s = r.getrandbits(64)
        if op in ("split", "typed"):
            s &= ~m
            if op == "split" and s == 0:
                continue
        yield "any\tbs\t%s\t%x\t%x\t%x\t%x\t%x\t%x" % (op, t, m, bt, bm, v, s), judge_bs(op, t, m, bt, bm, v, s)
