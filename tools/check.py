#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree (see DESIGN.md)."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NANVM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
import drv      # noqa: E402
import extract  # noqa: E402
import fals     # noqa: E402
import falsa    # noqa: E402
import falsm    # noqa: E402
import falsp    # noqa: E402
import falss    # noqa: E402
import hints    # noqa: E402
import props    # noqa: E402


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------ verifier
CANARY = "proof fn vcanary() ensures false {}\n"


START = time.time()
VERUS_BUDGET = 560      # seconds of this check that may go to the verifier in all (a check has 900)


def run_verus(unit, src, extra=(), timeout=420):
    timeout = max(20, min(timeout, VERUS_BUDGET - (time.time() - START)))
    d = os.path.join(BUILD, "verus")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, unit + ".rs")
    open(p, "w").write(src)
    cmd = ["verus", p, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "4", "--rlimit", "80", *extra, "--", "--error-format=json", "-Awarnings"]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, [{"message": "verifier timeout", "lines": [], "verif": False}], time.time() - t, " ".join(cmd)
    try:
        j = json.loads(out)
    except ValueError:
        j = None
    errs = []
    for l in err.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("level") != "error" or e["message"].startswith("aborting due"):
            continue
        spans = e.get("spans", []) + [s for c in e.get("children", []) for s in c.get("spans", [])]
        errs.append({"message": e["message"], "lines": [(s["line_start"], s["is_primary"], (s.get("text") or [{}])[0].get("text", "").strip()[:200], s["file_name"]) for s in spans], "rendered": (e.get("rendered") or "")[:1500]})
    return j, errs, time.time() - t, " ".join(cmd)


RETRY_SEEDS = (11, 12, 13)
RETRY_WALL = 150


def outcomes(j):
    """(functions whose obligations were not all discharged, functions tried, solver time) of one run"""
    failed, total, ms = {}, 0, 0
    for m in j["times-ms"]["smt"]["smt-run-module-times"]:
        for fb in m.get("function-breakdown", []):
            total += 1
            ms += fb["time"]
            if not fb["success"]:
                failed[fb["function"].split("::", 1)[1]] = fb
    return failed, total, ms


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.status = {}      # fn -> 'proved' | 'failed' | 'undecided'
        self.msgs = {}        # fn -> [text]
        self.obligations = self.discharged = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.cmd = ""
        self.why = {}
        self.rewrites = {}
        self.fp_changed = set()
        self.fns = []
        self.assumed = []
        self.lemma_trouble = []
        self.retries = 0


def verify_unit(name, tier, wanted):
    """build the unit from the current tree and run the verifier, function by function"""
    res = UnitResult(name)
    overlay = os.path.join(VERIF, "units", name + ".vrs")
    base = {}
    fpf = os.path.join(VERIF, "units", name + ".fp.json")
    if os.path.exists(fpf):
        base = json.load(open(fpf))
    assume = {}
    t0 = time.time()
    extra = []
    for attempt in range(8):
        u = extract.Unit(name, overlay, REPO, assume)
        try:
            src = u.build()
        except extract.Lost as x:
            for f in props.unit_fns(name, overlay):
                res.status[f] = "undecided"
                res.why[f] = str(x)
            res.lemma_trouble.append("unit not built: " + str(x))
            res.wall = time.time() - t0
            res.fp_changed = set(res.status)
            return res
        for f, w in u.lost.items():
            assume[f] = w
        k = src.rindex("}\nfn main") if u.module is None else src.rindex("} // module end")
        src = src[:k] + CANARY + src[k:]
        extra = ["--verify-module", u.module] if u.module else []
        j, errs, wall, res.cmd = run_verus(name, src, extra)
        if j is not None and not j["verification-results"].get("encountered-vir-error") and "verified" in j["verification-results"] and (j["verification-results"]["verified"] + j["verification-results"]["errors"] > 0):
            break
        # the text did not get as far as verification: take the offending functions out (their contract is then
        # assumed and the function reported as undecided) and try again
        new = {}
        for e in errs:
            for ln, prim, _, fn in e["lines"]:
                f = u.fn_at(ln) if fn.endswith(name + ".rs") else None
                if f and f not in assume and (prim or len(errs) == 1):
                    new[f] = e["message"]
        if not new:
            why = "; ".join(e["message"] for e in errs)[:600] or "verifier gave no result"
            for f in [x["name"] for x in u.fns]:
                res.status[f] = "undecided"
                res.why[f] = why
            res.lemma_trouble.append(why)
            res.wall = time.time() - t0
            res.fns = u.fns
            res.fp_changed = {f for f in res.status if u.fingerprints.get(f) != base.get(f)} or set(res.status)
            return res
        assume.update(new)
    else:
        for f in [x["name"] for x in u.fns]:
            res.status[f] = "undecided"
            res.why[f] = "too many functions out of reach"
        res.fp_changed = set(res.status)
        res.wall = time.time() - t0
        return res
    vr = j["verification-results"]
    res.fns = u.fns
    res.rewrites = u.rewrites
    res.assumed = sorted(assume)
    for f in [x["name"] for x in u.fns]:
        res.status[f] = "proved"
        if u.fingerprints.get(f) != base.get(f):
            res.fp_changed.add(f)
    for f, w in assume.items():
        res.status[f] = "undecided"
        res.why[f] = w
        res.fp_changed.add(f)
    failed_names, total, res.smt_ms = outcomes(j)
    # An obligation the solver did not discharge may only have been out of luck in its search: it is tried again with
    # other seeds, and stands as failed only if no run discharges it. (Each run is a proof on its own, per function.)
    first, retried = set(failed_names), 0
    vname = {}
    for x in u.fns:
        vname.setdefault(x["name"], set()).update([x["vname"]] + x["also"])
    # what another property decides is left to its check
    others = {v for f, vs in vname.items() if f not in wanted for v in vs} - {v for f in wanted for v in vname.get(f, ())}
    for sd in RETRY_SEEDS:
        if not [f for f in failed_names if not f.endswith("vcanary") and f not in others] or time.time() - t0 > RETRY_WALL or time.time() - START > VERUS_BUDGET / 2:
            break
        j2, errs2, _, _ = run_verus(name, src, extra + ["--smt-option", f"smt.random_seed={sd}", "--smt-option", f"sat.random_seed={sd}"])
        if j2 is None or "verified" not in j2["verification-results"]:
            break
        failed2, total2, ms = outcomes(j2)
        if total2 != total:
            break
        retried += 1
        res.smt_ms += ms
        failed_names = {f: fb for f, fb in failed_names.items() if f in failed2}
    res.retries = retried
    canary = [f for f in failed_names if f.endswith("vcanary")]
    res.obligations = vr["verified"] + vr["errors"] - 1
    res.discharged = vr["verified"] + len(first) - len(failed_names)
    if not canary or total < 2:
        # the axioms in scope prove false: nothing this run says counts
        for f in res.status:
            res.status[f] = "undecided"
            res.why[f] = "vacuity guard: `false` was provable"
        res.lemma_trouble.append("vacuity guard: `false` was provable")
        res.wall = time.time() - t0
        return res
    located = set()
    for e in errs:
        fns = set()
        prim = [(ln, fn) for ln, p, _, fn in e["lines"] if p and fn.endswith(name + ".rs")] or [(ln, fn) for ln, p, _, fn in e["lines"] if fn.endswith(name + ".rs")]
        for ln, fn in [(ln, fn) for ln, p, _, fn in e["lines"] if fn.endswith(name + ".rs")]:
            f = u.fn_at(ln)
            if f:
                fns.add(f)
        # errors name the function by the place of the failing clause: for a call, the caller
        caller = None
        for f in fns:
            if vname[f] & set(failed_names):
                caller = f
                located |= vname[f] & set(failed_names)
                text = e["message"] + ": " + " / ".join(t for _, _, t, _ in e["lines"] if t)[:400]
                if re.search(r"[Rr]esource limit|rlimit|timeout", e["message"]):
                    res.status[f] = "undecided"
                    res.why[f] = "solver resource limit"
                elif res.status[f] != "undecided":
                    res.status[f] = "failed"
                res.msgs.setdefault(f, []).append(text)
        if caller is None and first == set(failed_names) and not any("vcanary" in t for _, _, t, _ in e["lines"]):
            res.lemma_trouble.append(e["message"] + ": " + " / ".join(t for _, _, t, _ in e["lines"] if t)[:300])
    for x in failed_names:
        if x.endswith("vcanary") or x in located:
            continue
        m = [f for f in res.status if x in vname[f]]
        for f in m:
            if res.status[f] == "proved":
                res.status[f] = "undecided"
                res.why[f] = "not verified (no located message)"
        if not m:
            res.lemma_trouble.append("lemma " + x)
    res.wall = time.time() - t0
    return res


# ------------------------------------------------------------------------------------------ falsifier
def falsify(prop, spec, seed, seconds, n):
    """(list of violations, known findings hit, evaluations, samples)"""
    t0 = time.time()
    viol, kf, samples = [], {}, []
    count = 0
    nontrivial = set()
    d = drv.Driver(spec.get("timeout", 20.0))
    try:
        for gname in spec["fals"]:
            gen = getattr(fals, gname)
            r = fals.rng(seed, prop + gname)
            budget = seconds / len(spec["fals"])
            g0 = time.time()
            batch = []

            def flush():
                nonlocal count
                if not batch:
                    return
                ans = d.ask([q for q, _ in batch])
                for (q, judge), a in zip(batch, ans):
                    if a == "ok not-built":
                        continue
                    count += 1
                    if len(samples) < 6 and count % 97 == 1:
                        samples.append({"input": q[:300], "observed": a[:300]})
                    nontrivial.add(hashlib.md5((q + a).encode()).digest())
                    try:
                        v = judge(a)
                    except (RecursionError, MemoryError):
                        continue        # the oracle's own limits
                    except Exception as x:
                        v = f"an answer that is none ({type(x).__name__})"
                    if v is None:
                        continue
                    if isinstance(v, tuple):
                        kf.setdefault(v[1], (q, a))
                    elif len(viol) < 20:
                        viol.append({"request": q, "observed": a, "why": v, "generator": gname})
                batch.clear()
            for item in gen(r, n):
                batch.append(item)
                if len(batch) >= 512:
                    flush()
                    if viol or time.time() - g0 > budget:
                        break
            flush()
            if viol:
                break
    finally:
        d.stop()
    return viol, kf, count, len(nontrivial), samples, time.time() - t0


def known_findings():
    """entries of /verif/KNOWN_FINDINGS.txt: `finding: property=<id> key=<key> <text>` and `fixed: property=<id> <commit> <text>`"""
    r = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m:
            r[(m.group(1), m.group(2))] = m.group(3)
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    replay = os.path.join(BUILD, "replay", prop + ".json")
    units, failed, undecided = [], [], []
    for uname, fns in spec["units"].items():
        u = verify_unit(uname, tier, props.unit_fns(uname, os.path.join(VERIF, "units", uname + ".vrs")) if fns == "*" else fns)
        units.append(u)
        if fns == "*":
            fns = [f for f in u.status]
        u.want = fns
        for f in fns:
            st = u.status.get(f, "undecided")
            if st == "failed":
                failed.append((uname, f, u.msgs.get(f, []), f in u.fp_changed))
            elif st == "undecided":
                undecided.append((uname, f, u.why.get(f, "no result"), u.msgs.get(f, [])))
        if u.lemma_trouble:
            undecided.append((uname, "(lemmas)", "; ".join(u.lemma_trouble)[:400], []))
        log(f"[{prop}] verus unit {uname}: {u.discharged}/{u.obligations} obligations discharged, {sum(1 for f in fns if u.status.get(f) == 'proved')}/{len(fns)} functions of this property proved, {u.wall:.1f}s")
    for uname, f, why, _ in undecided:
        log(f"[{prop}] undecided: {uname}::{f}: {why[:300]}")
    for uname, f, msgs, ch in failed:
        for m in msgs[:3]:
            log(f"[{prop}] failed obligation in {uname}::{f}: {m[:300]}")

    trouble = bool(failed or undecided)
    seconds = spec.get("deep_s", 150) if (trouble or tier == "thorough") else spec.get("quick_s", 12)
    if tier == "thorough":
        seconds = max(seconds, 300)
    n = 10 ** 9
    viol, kf, evals, distinct, samples, fwall = [], {}, 0, 0, [], 0.0
    fals_note = ""
    try:
        drv.build()
        if hints.load(REPO):
            hints.install(fals, falsp, falss, falsa, falsm)
        viol, kf, evals, distinct, samples, fwall = falsify(prop, spec, seed, seconds, n)
    except drv.BuildFailed as x:
        fals_note = "replay driver did not build: " + str(x)[-400:]
        log(f"[{prop}] {fals_note}")
    listed = known_findings()
    violations = 0
    lines = []
    for key, (q, a) in sorted(kf.items()):
        if (prop, key) in listed:
            lines.append(f"KNOWN-FINDING: property={prop} {key}: {listed[(prop, key)]} (e.g. {q!r} -> {a!r})")
        else:
            viol.append({"request": q, "observed": a, "why": f"finding {key} is not listed"})
    rc = 0
    rep = {"property": prop, "tier": tier, "seed": seed,
           "failed_obligations": [{"unit": u, "function": f, "messages": m} for u, f, m, _ in failed],
           "undecided": [{"unit": u, "function": f, "why": w} for u, f, w, _ in undecided],
           "failing_inputs": viol, "how_to_replay": f"printf '<request>\\n' | {drv.BIN}"}
    if viol:
        rc, violations = 1, len(viol)
        json.dump(rep, open(replay, "w"), indent=1)
        v = viol[0]
        log(f"[{prop}] failing input: {v['request']!r} -> {v['observed'][:300]!r}; {v['why'][:300]}")
        lines.append(f"VIOLATION property={prop} replay={replay}")
    else:
        hard = [x for x in failed if not x[3]]
        if hard:
            # same shape of code, an obligation that no longer holds, and no input found
            rc, violations = 1, len(hard)
            json.dump(rep, open(replay, "w"), indent=1)
            lines.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
    bounded = sorted({f"{u}::{f}" for u, f, _, _ in undecided} | {f"{u}::{f}" for u, f, _, _ in failed})
    obligations = sum(u.obligations for u in units)
    discharged = sum(u.discharged for u in units)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join([u.cmd for u in units]),
            "trusted_base": spec.get("trusted", []) + props.COMMON_TRUST,
            "functions_under_contract": {u.name: {f: u.status.get(f, "undecided") for f in u.want} for u in units},
            "backends": {"verus+z3": {"verified": sum(u.discharged for u in units), "smt_ms": sum(u.smt_ms for u in units), "wall_s": round(sum(u.wall for u in units), 2)}},
            "bounded_not_proved": bounded,
            "extraction_rewrites": {u.name: u.rewrites for u in units},
            "solver_retries": {u.name: u.retries for u in units},
            "vacuity_guard": "a lemma `ensures false` is added to every unit and must be rejected",
            "cross_check": {"rule": "inputs generated from VERIF_SEED replayed on the real code against an independent oracle (bounded, not part of the proof)", "evaluations": evals, "distinct_nontrivial": distinct, "seconds": round(fwall, 1), "samples": samples, "note": fals_note},
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "cross-check inputs are distinct requests with distinct answers", "samples": samples or [{"input": "none", "observed": fals_note}],
        },
        "assumptions": spec.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if bounded and rc == 0:
        log(f"[{prop}] decided by the bounded stand-in (not proved) for: {', '.join(bounded)[:600]}")
    log(f"[{prop}] cross-check: {evals} inputs replayed in {fwall:.1f}s")
    for l in lines:
        log(l)
    sys.exit(rc)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        # never a verdict: the evidence file of this run is missing, which vcheck reports
        sys.exit(2)
