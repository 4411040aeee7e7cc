#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample against a native build of the current tree."""
import sys, json
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import build, check
r = json.load(open(sys.argv[1]))
if r.get("sched"):
    tmp = build.B + "/run-" + r["property"]
    symx, ll, _, _ = build.build([r["harness"]], name=r["property"])
    rc, out = check.ir_run(symx, ll, r["harness"], r["inputs"], tmp)
    print(out)
    print("exit", rc, "-> violation reproduced" if rc else "-> not reproduced")
    sys.exit()
so = build.build_native(sorted({m for m, _ in build.modules([r["harness"]])}) + ["hook"])
rc, out = check.native_run(so, r["harness"], r["inputs"])
print(out)
print("exit", rc, "-> violation reproduced" if check.classify(rc, r) else "-> not reproduced")
