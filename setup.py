#!/usr/bin/env python3
"""Builds the symbolic executor once and warms the dependency builds the checks share."""
import concurrent.futures as cf, json, os, sys
sys.argv = ["check.py", "C01"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check
c = json.load(open(os.path.join(check.V, "checks.json")))
first = {}
for pid, cfg in c.items():
    for v in cfg.get("variants", ["plain"]):
        first.setdefault((v, cfg.get("features")), (pid, cfg))
with cf.ThreadPoolExecutor(8) as ex:
    fs = [ex.submit(check.build_engine)]
    for (v, _), (pid, cfg) in first.items():
        fs.append(ex.submit(check.build_ir, pid, cfg, v))
        fs.append(ex.submit(check.build_native, pid, cfg, v, "release"))
    for f in fs:
        f.result()
print("built")
