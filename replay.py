#!/usr/bin/env python3
"""Runs a recorded counterexample natively against /repo: replay.py replay/C01-0.json"""
import json
import sys

import check

r = json.load(open(sys.argv[1]))
cfg = json.load(open(check.os.path.join(check.V, "checks.json")))[r["property"]]
so = check.build_native(r["property"], cfg, r["build"], r["profile"])
out, txt = check.run_native(so, r["harness"], r["inputs"])
print(txt)
print("outcome:", out)
sys.exit(0 if out == "ok" else 1)
