"""Falsifier for the program itself (see fals.py): documents, modules and names of every sort, in memory. What it
writes is judged against the library's own reading and writing, which P01, L01, S01 and S02 are about."""
from fals import enc
from falsp import documents, modules

OUT = ["o.json", "o.d.cjs", "o.d.mjs", "o.js", "o", "", ".json", ".d.cjs", ".d.mjs", "o.cjs", "o.mjs", "o.JSON", "o.json ", "o.d.cjs.json", "o.json.d.mjs", "d.cjs", "a/o.json", "json", "o.d.mjs/", "ojson", "o.d.djs",
       "ro/o.json", "ro/o.d.cjs", "ro/o.d.mjs", "x.d.json", "é.json", "o.json.d.cjs", "o-d.cjs", "o.d-mjs"]

PART = [".d", ".cjs", ".mjs", ".json", ".js", ".", "d", "x", "cjs", "mjs", "json", "data", "/", "..", " ", "D", ".d.cjs", ".d.mjs"]


def kind(o):
    return "json" if o.endswith(".json") else "Cjs" if o.endswith(".d.cjs") else "Mjs" if o.endswith(".d.mjs") else None


def judge(out):
    def f(ans):
        w = ans[3:].split("|")
        if not ans.startswith("ok ") or len(w) != 10:
            return "no result"
        end, changed, gone, value, json, cjs, mjs, got, back, wrong = w
        end, _, text = end.partition(":")
        k = kind(out)
        if gone == "1":
            return "a file is gone"
        if k and value == "-" and end == "failed" and wrong not in bytes.fromhex(text).decode():
            return f"says {bytes.fromhex(text).decode()!r}; what is wrong is {wrong}"
        if k is None or value == "-":
            return None if end == "failed" and changed == "" else f"{end}, wrote {changed or 'nothing'}; expected an error and nothing written ({'no such output type' if k is None else 'the input has no value'})"
        want = {"json": json, "Cjs": cjs, "Mjs": mjs}[k]
        if want == "-":
            return None         # the value has no such text: S01, S02
        if out.startswith("ro/"):
            return None if end == "failed" and changed == "" else f"{end} although the output cannot be written"
        if end != "done":
            return f"{end}, expected it to write {out}"
        if changed not in ("", enc(out)):
            return f"other files written: {changed}"
        if got != want and (k == "json" or back != f"{k} {value}"):
            return f"wrote {got}, expected {want}"
        return None
    return f


def programs(r, n):
    gens = [documents(r, n), modules(r, n)]
    base = [("a.json", [("a.json", "[1,true,null,\"x\",{}]")]), ("a.json", [("a.json", "[")]), ("none.json", []), ("a.d.cjs", [("a.d.cjs", "const a=[];module.exports=[a,a,-1.5]")]), ("o.json", [("o.json", "{}"), ("o.d.cjs", "1")]),
            ("b.d.mjs", [("b.d.mjs", "import a from \"./a.json\"\nexport default {\"k\":a,\"b\":12n}"), ("a.json", "[[]]")])]
    small = [a + b + c for a in PART for b in [""] + PART for c in ["", ".cjs", ".mjs", ".json", "cjs", "mjs", "json"]]
    for p, fs in base:
        for o in OUT + (small if p == base[0][0] else []):
            yield f"run\t{enc(p)}\t{enc(o)}\t" + ",".join(f"{enc(k)}={enc(v)}" for k, v in fs), judge(o)
    for i in range(n):
        g = gens[i % 2]
        x = next(g, None)
        if x is None:
            continue
        q = x[0].split("\t")
        if q[0] != "parse":
            continue
        o = r.choice(OUT[:3] if r.random() < .7 else OUT)
        if r.random() < .2:
            o = "".join(r.choice(PART) for _ in range(r.randrange(1, 6)))
        yield f"run\t{q[1]}\t{enc(o)}\t{q[2]}", judge(o)
