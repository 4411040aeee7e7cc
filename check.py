#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: rebuilds the harnesses from /repo's current tree, executes each
obligation symbolically (symx), lets the SMT solvers decide every assertion, replays any
counterexample against a native build of the same sources, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Else: check error."""
import sys, os, json, time, subprocess, re, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as bld
import props

CPUS = 8

def log(s):
    print("[%7.1fs] %s" % (time.time() - T0, s), file=sys.stderr, flush=True)

def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)

def run_symx(symx, ll, h, tier, tmp):
    out = "%s/%s.json" % (tmp, h.entry)
    if os.path.exists(out):
        os.remove(out)
    secs = h.secs if tier == "quick" else h.tsecs
    qs = h.qsecs if tier == "quick" else h.tqsecs
    cmd = [symx, ll, "--entry", h.entry, "--out", out, "--total-secs", str(secs), "--query-secs", str(qs),
           "--max-paths", str(h.max_paths), "--tmp", tmp, "--seed", os.environ.get("VERIF_SEED", "1")] + list(h.opts)
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=secs + 3 * qs + 120)
    if p.returncode != 0 or not os.path.exists(out):
        return {"error": "symx exit %d: %s" % (p.returncode, p.stdout[-2000:])}
    r = json.load(open(out))
    r["elapsed"] = time.time() - t
    return r

NATIVE_SNIP = r"""
import ctypes,sys
l=ctypes.CDLL(sys.argv[1]); l.sx_native_init(); f=getattr(l,sys.argv[2]); f.restype=None; f(); print('SX completed'); sys.stdout.flush()
import os; os._exit(0)
"""

def native_run(so, entry, inputs, valgrind=False):
    e = dict(os.environ)
    e["SX_INPUTS"] = ",".join(str(x) for x in inputs)
    e["RAYON_NUM_THREADS"] = "1"
    cmd = [sys.executable, "-c", NATIVE_SNIP, so, entry]
    if valgrind:
        e["PYTHONMALLOC"] = "malloc"
        cmd = ["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=no"] + cmd
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return p.returncode, p.stdout[-1500:]

def ir_run(symx, ll, entry, inputs, tmp):
    """concurrent counterexamples: execute the compiled code again with the recorded schedule and values, nothing symbolic"""
    out = "%s/replay-%s.json" % (tmp, entry)
    p = subprocess.run([symx, ll, "--entry", entry, "--out", out, "--tmp", tmp, "--trace", "--concrete", ",".join(map(str, inputs))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200)
    v = json.load(open(out))["violations"] if p.returncode == 0 else []
    log = "\n".join(l for l in p.stdout.splitlines() if l.startswith("SCHED"))[-1200:]
    return (10, log + "\n%s %s" % (v[0]["kind"], v[0]["msg"])) if v else (0, log)

def classify(rc, v):
    """does the native outcome confirm the violation?"""
    if rc in (10, 12):
        return True
    if rc is not None and (rc < 0 or rc in (134, 139, 77)):
        return True
    return False

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = props.PROPS[prop]
    hs = [h for h in P.harnesses if tier in h.tiers]
    known = json.load(open(V + "/known_findings.json"))
    ev_path = "%s/evidence/%s.json" % (V, prop)
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    tmp = bld.B + "/run-" + prop
    os.makedirs(tmp, exist_ok=True)
    try:
        symx, ll, built, feats = bld.build([h.entry for h in hs], name=prop, log=log)
    except bld.BuildError as e:
        die(str(e))
    reps = {}
    gone = [h for h in hs if h.entry not in built]
    hs = [h for h in hs if h.entry in built]
    hs.sort(key=lambda h: -h.weight)
    with ThreadPoolExecutor(CPUS) as ex:
        fs = {ex.submit(run_symx, symx, ll, h, tier, tmp): h for h in hs}
        for f in as_completed(fs):
            h = fs[f]
            try:
                r = f.result()
            except subprocess.TimeoutExpired:
                r = {"error": "symx did not stop in time"}
            reps[h.entry] = r
            if "error" in r:
                log("%s: %s" % (h.entry, r["error"][-300:]))
            else:
                log("%s: %.1fs paths=%d panics_ok=%d asserts=%d norm + %d smt, queries=%d solver=%.1fs undecided=%d unexplored=%d viol=%d %s" % (
                    h.entry, r["elapsed"], r["paths"], r["panics_ok"], r["asserts_norm"], r["asserts_smt"], r["queries"], r["solver_s"],
                    r["n_undecided"], r["unexplored"], len(r["violations"]), ("UNSUPPORTED " + "; ".join(r["unsupported"][:2])) if r["unsupported"] else ""))
    errors, viols, findings, undecided = [], [], [], []
    errors += ["%s: the internals it looks into cannot be built" % h.entry for h in gone]
    so = None
    hs.sort(key=lambda h: h.entry)
    for h in hs:
        r = reps[h.entry]
        if "error" in r:
            errors.append("%s: %s" % (h.entry, r["error"]))
            continue
        for v in r["violations"]:
            if h.sched:
                rc, out = ir_run(symx, ll, h.entry, v["inputs"], tmp)
            elif so is None:
                try:
                    so = bld.build_native(feats)
                    log("native replay library built")
                except bld.BuildError as e:
                    die("replay build: " + str(e))
            if not h.sched:
                rc, out = native_run(so, h.entry, v["inputs"])
            ok = classify(rc, v)
            if not ok and not h.sched and "assert" not in v["kind"] and rc in (0, 13):
                rc, out = native_run(so, h.entry, v["inputs"], valgrind=True)
                ok = classify(rc, v)
            log("violation in %s: %s %s -> native rc=%s %s" % (h.entry, v["kind"], v["msg"], rc, out.strip()[-200:]))
            if not ok:
                errors.append("%s: counterexample did not reproduce natively (%s %s, rc=%s) inputs=%s" % (h.entry, v["kind"], v["msg"], rc, ",".join(map(str, v["inputs"]))[:500]))
                continue
            k = [f for f in known if f.get("status") == "known" and f.get("property") == prop and f.get("harness") == h.entry]
            if k:
                findings.append((k[0], v))
            else:
                viols.append((h, v, rc, out))
        if r["violations"]:
            continue
        if r["unsupported"]:
            errors.append("%s: not executable: %s" % (h.entry, "; ".join(r["unsupported"][:3])))
        elif r["undecided"] or r["unexplored"]:
            undecided.append(h.entry)
            if not h.optional:
                errors.append("%s: undecided within the limits: %s" % (h.entry, "; ".join(r["undecided"][:3])))
        miss = [str(k) for k in h.reach if str(k) not in r["reach"]]
        if miss and not (h.optional and h.entry in undecided):
            errors.append("%s: vacuous, reachability witness %s not reached" % (h.entry, ",".join(miss)))
        if not (r["asserts_norm"] + r["asserts_smt"]) and not h.noassert:
            errors.append("%s: no assertion was checked" % h.entry)
    # known findings that no longer show are simply not printed
    for f, v in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    # evidence
    good = [r for r in reps.values() if "error" not in r]
    fns = set()
    for r in good:
        for f in r["funcs"]:
            path, name, line = f.split("\t")
            if re.match(r"(sunscreen_tfhe|sunscreen_math|parasol_\w+|mux_circuits|benchmark_system_info)::", name):
                fns.add("%s [%s:%s]" % (re.sub(r"<.*", "", name), path.replace("/repo/", ""), line))
    oblig = sum(r["asserts_norm"] + r["asserts_smt"] for r in good)
    cov = {
        "explanation": "Bounded symbolic execution of the LLVM IR that rustc emits for the current sources; every path of every harness below is explored with symbolic inputs, "
                       "each assertion is decided for all values within the bounds by exact normalisation of the term or by an SMT solver; counterexamples are replayed natively.",
        "functions_encoded": sorted(fns),
        "obligations": oblig,
        "discharged": oblig - sum(r["n_undecided"] for r in good) - len(viols) - len(findings),
        "decided_by_normalisation": sum(r["asserts_norm"] for r in good),
        "decided_by_solver": sum(r["asserts_smt"] for r in good),
        "solver_queries": sum(r["queries"] for r in good),
        "solver_unsat": sum(r["unsat"] for r in good),
        "solver_sat": sum(r["sat"] for r in good),
        "solver_unknown": sum(r["unknown"] for r in good),
        "solver_seconds": round(sum(r["solver_s"] for r in good), 2),
        "paths": sum(r["paths"] for r in good),
        "expected_panic_paths": sum(r["panics_ok"] for r in good),
        "ir_steps": sum(r["steps"] for r in good),
        "harnesses": [{
            "entry": h.entry, "bounds": h.bound, "what": h.what,
            **({k: reps[h.entry][k] for k in ("paths", "panics_ok", "inputs", "asserts_norm", "asserts_smt", "queries", "unsat", "unknown", "solver_s", "max_query_s", "by_solver", "reach", "n_undecided", "unexplored")} if "error" not in reps[h.entry] else {"error": reps[h.entry]["error"][-300:]}),
        } for h in hs],
        "undecided_optional": undecided,
        "inconclusive": [e[:300] for e in errors],
        "outside": P.outside,
        "samples": [{"harness": h.entry, "witness": reps[h.entry].get("reach", {})} for h in hs[:3]],
    }
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
               "assumptions": props.COMMON_ASSUMPTIONS + P.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(viols)},
              open(ev_path, "w"), indent=1)
    for h, v, rc, out in viols:
        rp = "%s/evidence/replays/%s-%s.json" % (V, prop, h.entry)
        json.dump({"property": prop, "harness": h.entry, "kind": v["kind"], "msg": v["msg"], "inputs": v["inputs"], "stack": v["stack"], "sched": h.sched,
                   "native_exit": rc, "native_output": out, "replay": "python3 /verif/replay.py %s" % rp}, open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        print("  %s: %s %s (%s run of the counterexample: exit %s, %s)" % (h.entry, v["kind"], v["msg"], "concrete" if h.sched else "native", rc, out.strip()[-200:]))
    # What could not be decided is reported and never counted as held; it is not an alarm either.
    # With nothing decided at all there is no answer to give.
    for e in errors:
        print("INCONCLUSIVE: " + e[:1500])
    if viols:
        sys.exit(1)
    if not oblig or (errors and os.environ.get("VERIF_STRICT")):
        die("nothing was decided" if not oblig else "something was not decided")
    print("OK property=%s tier=%s obligations=%d paths=%d queries=%d solver=%.1fs wall=%.1fs" % (
        prop, tier, oblig, cov["paths"], cov["solver_queries"], cov["solver_seconds"], time.time() - T0))

T0 = time.time()
if __name__ == "__main__":
    main()
