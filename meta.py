#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the property texts live here; the harness table is props.py)."""
import json, os, subprocess
import props
V = os.path.dirname(os.path.abspath(__file__))
T = "sunscreen_tfhe/src/"
PROPERTIES = []
NA = {}
def prop(id, title, statement, over, text, why, files, mech, na=None, hook=None):
    PROPERTIES.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                       "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}})
    if na:
        NA[id] = na
exec(open(V + "/meta_props.py").read())
def main():
    ids = [p["id"] for p in PROPERTIES]
    assert len(set(ids)) == len(ids)
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPERTIES:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
    checks, na = [], []
    for p in PROPERTIES:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            assert i not in props.PROPS
            continue
        P = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "bounded symbolic execution of the compiled code (LLVM IR) with SMT solving (z3, cvc5), counterexamples replayed natively",
                       "level": "other",
                       "level_note": "Every path within the stated bounds is executed symbolically and every assertion is decided for all values of the symbolic inputs. Bounds: " +
                                     "; ".join(dict.fromkeys(h.bound for h in P.harnesses if h.bound)) + ". Outside: " + (P.outside or "nothing further") + "."})
    json.dump({"version": 1, "setup_cmd": "true",
               "hooks": {"guard": "cfg(spf_verif)", "enable": "RUSTFLAGS='--cfg spf_verif' (set by build.py for the harness builds)", "source_commits": hooks},
               "checks": checks, "not_applicable": na,
               "notes": "Each check rebuilds /repo's current sources to LLVM IR, executes its harnesses symbolically with the engine in symx/, and replays counterexamples natively. "
                        "known_findings.json lists repaired defects (status fixed) and open findings (status known). properties.jsonl and this file are generated by meta.py."},
              open(V + "/MANIFEST.json", "w"), indent=1)
if __name__ == "__main__":
    main()
