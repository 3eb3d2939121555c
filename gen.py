#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/properties.py and checks.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "meta"))
sys.dont_write_bytecode = True
from properties import P, NA
checks = json.load(open(os.path.join(V, "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "--cfg rustica_verif", "enable": "RUSTFLAGS='--cfg rustica_verif' (check.py sets it for the 'scaled' builds of C01-C03, and with '--cfg rustica_verif_wide' for their 'wide' builds; every other build leaves both off)",
               "source_commits": ["e20e178", "666a717", "4315149", "11272a6", "0c2195f"]},
     "checks": [], "not_applicable": []}
full = subprocess.run(["git", "-C", "/repo", "rev-parse"] + m["hooks"]["source_commits"], stdout=subprocess.PIPE, text=True).stdout.split()
if len(full) == len(m["hooks"]["source_commits"]):
    m["hooks"]["source_commits"] = full
for p in P:
    if p["id"] in checks:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "bounded symbolic execution of the compiled code (LLVM IR) with z3; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Every path of the real compiled code within the bounds listed at the top of harness/src/%s.rs is explored and every assertion on it decided by z3 or by simplification; nothing is claimed outside those bounds or for other element types. %sTrusted: the symx executor (cross-checked by native runs of sampled paths on every run), z3, rustc/LLVM; allocation never fails." % (checks[p["id"]]["module"], p.get("note", ""))})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")

import glob
d = open(os.path.join(V, "meta/design_head.md")).read()
for p in P:
    d += "\n### %s %s\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["id"] in checks:
        mod = checks[p["id"]]["module"]
        head = [l[3:].strip() for l in open(os.path.join(V, "harness/src/%s.rs" % mod)) if l.startswith("//!")]
        d += "Harness `harness/src/%s.rs`. Oracle and claim: %s\n" % (mod, " ".join(l for l in head if not l.startswith(("bound:", "assume:"))))
        for l in head:
            if l.startswith(("bound:", "assume:")):
                d += "\n* " + l
        d += "\n* why beyond tests: " + p["why"] + "\n"
        if p.get("design"):
            d += "* " + p["design"] + "\n"
    else:
        d += "Not applicable: " + NA[p["id"]] + "\n"
d += open(os.path.join(V, "meta/design_tail.md")).read()
d += "\n| bug | property | needs | breaks | reported by |\n|---|---|---|---|---|\n"
caught = json.load(open(os.path.join(V, "meta/caught.json")))
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    b = f.split("/")[-2]
    e = json.load(open(f))
    d += "| %s | %s | %s | %s | %s |\n" % (b, e["property"], e["needs"], e["what_it_breaks"], caught.get(b, "not run yet"))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
