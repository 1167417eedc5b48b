#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "The existing tests are a few unit tests of containers and helpers on fixed examples; "
P = []
def p(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=T + why, files=files, mech=mech, na=na))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
checks, na = [], []
for x in P:
    if x["na"] or not glob.glob("%s/harness/%s_*.c" % (V, x["id"])):
        na.append({"property": x["id"], "reason": x["na"] or "no harness yet"})
    else:
        checks.append({"property": x["id"], "quick_cmd": "python3 check.py %s --tier quick" % x["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
            "technique": "bounded symbolic execution of the real C sources (CBMC), every path within the bounds decided by SAT; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "All values within the bounds stated in the harness headers and the evidence file (message sizes, record counts, operations); "
                          "trusts CBMC's C semantics, the listed environment models and stubs; nothing is claimed beyond the bounds."})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, x["id"]

# DESIGN.md: fixed head, one section per property, seeds, findings
import re, sys
def hdr(fn):
    t = open(fn).read(); return json.loads(t[t.index("/*VP") + 4:t.index("VP*/")])
out = [open(V + "/tools/design_head.md").read(), "## Properties\n"]
for x in P:
    out.append("### %s %s\n" % (x["id"], x["title"]))
    out.append(x["statement"] + "\n")
    hs = sorted(glob.glob("%s/harness/%s_*.c" % (V, x["id"])))
    if x["na"] or not hs:
        out.append("Not applicable: %s\n" % (x["na"] or "no harness yet")); continue
    out.append("Oracle: a reference written from the specification in the harness, compared for %s.\n" % x["text"])
    for h in hs:
        d = hdr(h)
        q = [v for v, o in d.get("variants", {"": {}}).items() if "quick" in o.get("tiers", ["quick", "thorough"])]
        out.append("- `%s` over %s: %s. Quick variants: %s; thorough: all %d." % (os.path.basename(h), ", ".join(d["srcs"]), d.get("bounds", ""), ", ".join(q) or "-", len(d.get("variants", {"": 0}))))
        for k in d.get("variants", {}).values():
            if k.get("bounds"): out.append("  - variant bound: " + k["bounds"])
        if d.get("stubs"): out.append("  - cut: " + "; ".join(d["stubs"]))
        if d.get("assumptions"): out.append("  - assumed: " + "; ".join(d["assumptions"]))
    out.append("")
out.append(open(V + "/tools/design_tail.md").read())
out.append("## Seeded changes\n\nEach was written from the property text, confirmed (tests pass, demonstration fails with it only), and run against the check with `tools/seedrun.sh`.\n")
res = {}
if os.path.exists(V + "/tools/seed_results.txt"):
    for l in open(V + "/tools/seed_results.txt"):
        a = l.split(None, 1); res[a[0]] = a[1].strip()
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append("- %s (%s): %s. Needs %s. %s" % (n, d["property"], d["what_it_breaks"], d["needs"], res.get(n, "not run")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
