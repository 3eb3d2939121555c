#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

  check.py C01 [--tier quick|thorough] [--only HARNESS] [--keep]

Exit 0: the property held for every value within the stated bounds.
Exit 1: VIOLATION line; the counterexample was replayed natively against the real code.
Exit 2: no verdict (build failure, solver unknown, a limit hit, vacuous harness, or a
counterexample that native execution does not reproduce).
"""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUSTFLAGS="", HOME=os.environ.get("HOME") or "/root",
)
ENV.pop("CARGO_TARGET_DIR", None)
JOBS = 8
# node sizes of the persistent vector: as shipped, 4/3/2 and 4/2/4 (inline/leaf/branch)
CFG = {"plain": "", "scaled": "--cfg rustica_verif", "wide": "--cfg rustica_verif --cfg rustica_verif_wide"}
T0 = time.time()
DEADLINE = {"quick": 780, "thorough": 3 * 3600}


class Broken(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=900):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise Broken("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with lock("engine"):
        sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "engine")], cwd=os.path.join(V, "engine"))
    return os.path.join(B, "engine", "release", "symx")


def feats(cfg):
    return ["--features", cfg["features"]] if cfg.get("features") else []


def build_ir(pid, cfg, var):
    """The harness crate and everything it calls in /repo, linked and optimised into one LLVM module."""
    t = os.path.join(B, "ir-" + var)
    out = os.path.join(B, "ll", "%s-%s.ll" % (pid, var))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(ENV)
    env["RUSTFLAGS"] = CFG[var]
    with lock("ir-" + var):
        deps = os.path.join(t, "release", "deps")
        for f in glob.glob(os.path.join(deps, "sxharness-*.ll")):
            os.unlink(f)
        sh(["cargo", "rustc", "--offline", "--release", "--target-dir", t] + feats(cfg) + ["--", "--cfg", "sx_" + cfg["module"],
            "--cfg", 'sx_run="%d"' % time.time_ns(), "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
           env=env, cwd=os.path.join(V, "harness"))
        f = glob.glob(os.path.join(deps, "sxharness-*.ll"))
        if len(f) != 1:
            raise Broken("expected one LLVM module, found %r" % f)
        shutil.move(f[0], out)
    return out


def build_native(pid, cfg, var, profile):
    t = os.path.join(B, "nat-" + var)
    out = os.path.join(B, "so", "%s-%s-%s.so" % (pid, var, profile))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(ENV)
    env["RUSTFLAGS"] = CFG[var]
    with lock("nat-" + var):
        sh(["cargo", "rustc", "--offline", "--profile", profile, "--target-dir", t] + feats(cfg)
           + ["--config", "profile.release.lto=false", "--config", "profile.release.codegen-units=16", "--config", "profile.release.opt-level=0",
              "--crate-type", "cdylib", "--", "--cfg", "sx_" + cfg["module"], "--cfg", "sx_replay",
              "--cfg", 'sx_run="%d"' % time.time_ns()],
           env=env, cwd=os.path.join(V, "harness"))
        shutil.copy(os.path.join(t, profile, "libsxharness.so"), out)
    return out


def run_native(so, harness, inputs, timeout=20):
    """One concrete execution of a harness in a child process: (outcome, text)."""
    d = os.path.join(B, "in")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%d-%d" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as h:
        h.write(" ".join(inputs))
    code = ("import ctypes,resource,sys;resource.setrlimit(resource.RLIMIT_AS,(8<<30,8<<30));resource.setrlimit(resource.RLIMIT_CORE,(0,0));"
            "getattr(ctypes.CDLL(sys.argv[1]),sys.argv[2])()")
    env = dict(ENV)
    env["SX_INPUTS"] = f
    env["RUST_BACKTRACE"] = "0"
    try:
        p = subprocess.run([sys.executable, "-c", code, so, harness], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        txt = p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "hang", "no end after %d s" % timeout
    finally:
        os.unlink(f)
    if p.returncode == 77 and "SX-ASSUME-FAILED" in txt:
        return "assume", txt
    if "SX-CHECK-FAILED" in txt:
        return "check", txt
    if p.returncode:
        return "crash", txt
    return "ok", txt


def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cfg = json.load(open(os.path.join(V, "checks.json")))[pid]
    module = cfg["module"]
    variants = cfg.get("variants", ["plain"])
    ev = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    deadline = T0 + DEADLINE[tier]

    # ---- build: engine, IR and native twin of every variant, in parallel
    pool = cf.ThreadPoolExecutor(16)
    fe = pool.submit(build_engine)
    fi = {v: pool.submit(build_ir, pid, cfg, v) for v in variants}
    fn = {v: pool.submit(build_native, pid, cfg, v, "release") for v in variants}
    engine = fe.result()

    src = open(os.path.join(V, "harness", "src", module + ".rs")).read()
    rex = re.compile(r"^define [^@]*@(ht?_%s_\w+)\(" % module, re.M)
    jobs = []
    modules = {}
    for v in variants:
        ll = fi[v].result()
        modules[v] = os.path.getsize(ll)
        names = sorted(set(rex.findall(open(ll).read())))
        for n in names:
            if n.startswith("ht_") and tier != "thorough":
                continue
            if only and only not in n:
                continue
            m = re.search(r"__(\d+)$", n)
            for k in range(int(m.group(1))) if m else [None]:
                jobs.append((v, ll, n, k))
    if not jobs:
        raise Broken("no harness found")
    tbuild = time.time() - T0
    # longest first: cases of the widest harnesses, high case numbers (longer inputs) first
    jobs.sort(key=lambda j: (-(j[3] if j[3] is not None else 10)))
    procs = set()
    grace = [deadline]

    def run_job(j, scale=1):
        v, ll, n, k = j
        out = os.path.join(B, "out", "%s-%s-%s-%s.json" % (pid, v, n, k))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out):
            os.unlink(out)
        left = min(deadline, grace[0]) - time.time()
        if left < 2:
            return j, None, "not run: out of time"
        cmd = [engine, "--ll", ll, "--harness", n, "--out", out, "--time", str(max(1, left - 2))]
        if k is not None:
            cmd += ["--case", str(k)]
        if scale > 1:
            cmd += ["--max-steps", str(30_000_000 * scale)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        while True:
            try:
                o, _ = p.communicate(timeout=1)
                break
            except subprocess.TimeoutExpired:
                if time.time() > min(deadline, grace[0]) + 5:
                    p.kill()
                    p.communicate()
                    return j, None, "out of time"
        if p.returncode or not os.path.exists(out):
            return j, None, "engine failed: " + o[-400:]
        d = json.load(open(out))
        # a path over the instruction limit that ends when run natively is long, not endless
        over = [x for x in d["violations"] if x["id"].startswith("instruction limit")]
        if over and scale < 100 and all(run_native(fn[v].result(), n, x["inputs"])[0] == "ok" for x in over[:2]):
            return run_job(j, scale * 10)
        return j, d, ""

    known = [x for x in known_findings()["known"] if x["property"] == pid]

    def listed(n, viol):
        return next((x for x in known if x["harness"] == n and x["id"] == viol["id"]), None)

    res = []
    problems = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in cf.as_completed([ex.submit(run_job, j) for j in jobs]):
            j, d, err = f.result()
            if d is None:
                problems.append("%s[%s] %s" % (j[2], j[3], err))
                continue
            res.append((j, d))
            for k, c in d["incomplete"].items():
                problems.append("%s[%s]: %d paths undecided: %s" % (j[2], j[3], c, k))
            if any(not listed(j[2], x) for x in d["violations"]):
                grace[0] = min(grace[0], time.time() + 45)

    # ---- counterexamples, replayed on the real code
    viols = [(j, x) for j, d in res for x in d["violations"]]
    viols.sort(key=lambda jx: ({"check": 0, "panic": 1}.get(jx[1]["kind"], 2), len(jx[1]["inputs"])))
    so = {}

    def native(v, prof):
        if (v, prof) not in so:
            so[(v, prof)] = fn[v].result() if prof == "release" else build_native(pid, cfg, v, prof)
        return so[(v, prof)]

    # ---- concordance: sampled complete paths, executed natively, must agree with the engine
    samples, want = [], []
    if not viols:
        per = {}
        for j, d in res:
            for s in d["samples"]:
                c = per.setdefault(j[2], [0])
                if c[0] < 8:
                    c[0] += 1
                    want.append((j, s))
        for v in variants:
            native(v, "release")

        def conc(js):
            j, s = js
            r, txt = run_native(native(j[0], "release"), j[2], s["inputs"], 60)
            ok = r == "ok" and ("SX-DONE %d\n" % s["checks"]) in txt
            return j, s, ok, r, txt

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for j, s, ok, r, txt in ex.map(conc, want):
                if ok:
                    samples.append({"harness": j[2], "build": j[0], "inputs": s["inputs"][:64], "checks_on_path": s["checks"]})
                else:
                    problems.append("native run disagrees with the symbolic one on %s inputs %s: %s %s" % (j[2], " ".join(s["inputs"])[:400], r, txt[-300:]))

    found = []
    seen_known = {}
    unrepro = []
    for j, x in viols:
        k = listed(j[2], x)
        if k:
            seen_known[k["harness"] + " " + k["id"]] = k
            continue
        if len(found) >= 3 or len(unrepro) >= 12:
            continue
        hit = None
        # threads: the native schedule is the operating system's, so it gets several tries
        for prof in ("release", "user") + ("release",) * (40 if "shared" in j[2] else 0):
            r, txt = run_native(native(j[0], prof), j[2], x["inputs"])
            good = {"check": r in ("check", "crash", "hang"), "hang": r in ("hang", "crash")}.get(x["kind"], r in ("crash", "check", "hang"))
            if good:
                hit = (prof, r, txt)
                break
        if not hit:
            unrepro.append("%s %s %s inputs %s: native run ended '%s'" % (j[2], x["kind"], x["id"], " ".join(x["inputs"])[:400], r))
            continue
        rp = os.path.join(V, "replay", "%s-%d.json" % (pid, len(found)))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({"property": pid, "harness": j[2], "build": j[0], "profile": hit[0], "kind": x["kind"], "check": x["id"],
                   "inputs": x["inputs"], "native_outcome": hit[1], "native_output": hit[2][-2000:], "stack": x["stack"],
                   "source": "/verif/harness/src/%s.rs" % module,
                   "reproduce": "python3 /verif/replay.py " + rp}, open(rp, "w"), indent=1)
        found.append((rp, j, x, hit))

    for x in known:
        hk = x["harness"] + " " + x["id"]
        if hk in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))

    # ---- vacuity guard
    if not viols and not only:
        ended = set(c for _, d in res for c in d["covers"])
        for n in set(j[2] for j in jobs):
            if "end " + n not in ended:
                problems.append("vacuous: %s never reaches its end" % n)
        ran = set(c for _, d in res for c in d["checks"])
        lits = set(re.findall(r"\"((?:t:)?%s\.[\w.:-]+)\"" % module, src))
        for i in sorted(lits - ran):
            if not (i.startswith("t:") and tier != "thorough"):
                problems.append("vacuous: check '%s' is never reached" % i)

    # ---- evidence
    tot = lambda k: sum(d[k] for _, d in res)
    code = {}
    for _, d in res:
        for f, c in d["code"].items():
            e = code.setdefault(f, [set(), 0])
            e[0].update(c["functions"])
            e[1] = max(e[1], c["lines"])
    doc = lambda tag: [m.strip() for m in re.findall(r"^\s*//! *%s: *(.+)$" % tag, src, re.M)]
    checks = {}
    for _, d in res:
        for c, n in d["checks"].items():
            checks[c] = checks.get(c, 0) + n
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"),
            "traces_validated_against_impl": len(samples),
            "samples": samples[:6] + [{"counterexample": r} for r, *_ in found],
            "explanation": "states = symbolic execution paths explored to their end (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces validated = models of explored paths whose native run of the same harness agreed with the symbolic one.",
            "harnesses": sorted(set(j[2] for j in jobs)), "jobs": len(jobs),
            "obligations": tot("obligations"), "discharged_by_simplification": tot("constant_obligations"),
            "infeasible_paths_pruned": tot("infeasible"), "forks": tot("forks"), "concretizations": tot("concretizations"),
            "branch_decisions_by_intervals": tot("interval_decisions") + tot("pinned_decisions"),
            "solver": res[0][1]["solver"] if res else "", "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"),
            "query_cache_hits": tot("cache_hits"), "solver_s": round(tot("solver_s"), 3),
            "max_query_s": max([d["max_query_s"] for _, d in res] or [0]),
            "max_symbolic_inputs_on_a_path": max([d["max_inputs"] for _, d in res] or [0]),
            "checks": checks, "bounds": doc("bound"),
            "functions_encoded": {f: sorted(c[0]) for f, c in sorted(code.items())},
            "ir_bytes": modules, "build_s": round(tbuild, 1),
        },
        "assumptions": doc("assume") + [
            "Decided on the LLVM IR rustc emits for the harness linked with /repo (opt-level 1, overflow checks and debug assertions on), for the concrete types the harness instantiates.",
            "Trusted: the symx executor and its simplifier, z3 5.3.2, rustc/LLVM; allocation never fails.",
        ],
        "wall_s": round(time.time() - T0, 2), "violations": len(found),
    }
    json.dump(evd, open(ev, "w"), indent=1)

    c = evd["coverage"]
    print("%s %s: %d jobs, %d paths, %d obligations (%d by simplification), %d queries, solver %.1f s, %d native traces, wall %.1f s (build %.1f s)"
          % (pid, tier, len(jobs), c["states"], c["obligations"], c["discharged_by_simplification"], c["queries"], c["solver_s"], len(samples), evd["wall_s"], tbuild))
    if "--times" in args:
        agg = {}
        for j, d in res:
            a = agg.setdefault((j[0], j[2]), [0, 0, 0, 0, 0])
            a[0] += d["paths"]; a[1] += d["steps"]; a[2] += d["solver_s"]; a[3] += d["wall_s"]; a[4] = max(a[4], d["wall_s"])
        for k, a in sorted(agg.items(), key=lambda x: -x[1][3]):
            print("  %-8s %-34s paths %8d steps %11d solver %7.1f wall %7.1f max %6.1f" % (k[0], k[1], *a))
    if found:
        for rp, j, x, hit in found:
            print("counterexample: %s in %s (%s): inputs %s; native (%s profile): %s %s"
                  % (x["id"], j[2], x["kind"], " ".join(x["inputs"])[:400], hit[0], hit[1], " | ".join(hit[2].strip().split("\n")[:3])[:300]))
        for rp, *_ in found:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for u in unrepro:
        problems.append("counterexample not reproduced natively: " + u)
    if problems:
        for p in problems[:40]:
            print("NO VERDICT: " + p)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("NO VERDICT: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
