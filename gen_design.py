"""appends the per-property table to DESIGN.md from props.py / meta_props.py and the notes in design_notes.md"""
import meta, props
V = meta.V
s = open(V + "/design_head.md").read()
s += "## Properties and how each is decided\n\n"
for p in meta.PROPERTIES:
    s += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["id"] in meta.NA:
        s += "Not claimed: %s\n\n" % meta.NA[p["id"]]
        continue
    P = props.PROPS[p["id"]]
    for h in P.harnesses:
        s += "- `%s`%s: %s. Bounds: %s.\n" % (h.entry, "" if "quick" in h.tiers else " (thorough)", h.what, h.bound)
    s += "- outside: %s\n" % (P.outside or "nothing further")
    for a in P.assumptions:
        s += "- assumes: %s\n" % a
    s += "- tests cannot: %s\n\n" % p["why_tests_cant"]
s += open(V + "/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(s)
