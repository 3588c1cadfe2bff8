#!/usr/bin/env python3
"""Decide one property:  run.py C03 [--tier quick|thorough] [--replay FILE] [--jobs N]

exit 0  the property held on everything observed
exit 1  a line "VIOLATION property=<id> replay=<path>" was printed
exit 2  no verdict (the build failed, or a monitor saw nothing)
"""
import argparse
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vm import build as B
from vm.meta import PROPS

HANG = 150.0


def spawn(prop, tier, seed, flavour, site, w, W, budget, scratch, only=None):
    out = os.path.join(scratch, "out_%s_%d.json" % (flavour, w))
    cfg = dict(prop=prop, tier=tier, seed=seed, flavour=flavour, site=site, w=w, W=W,
               budget=budget, out=out, only=only)
    cf = os.path.join(scratch, "cfg_%s_%d.json" % (flavour, w))
    json.dump(cfg, open(cf, "w"))
    env = B.base_env(flavour, threads=PROPS[prop].get("threads", 2))
    env["PYTHONPATH"] = site + ":" + HERE
    env["VM_SCRATCH"] = scratch
    if flavour == "mem":
        env["LD_PRELOAD"] = os.path.join(site, "memcount.so")
    log = open(os.path.join(scratch, "log_%s_%d" % (flavour, w)), "w+")
    cmd = [B.PY, "-m", "vm.worker", cf]
    if flavour == "tsan" and subprocess.call(["setarch", "x86_64", "-R", "true"], stderr=subprocess.DEVNULL) == 0:
        cmd = ["setarch", "x86_64", "-R"] + cmd
    p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    return dict(p=p, out=out, log=log, flavour=flavour, w=w, hung=False)


def finish(ws, hang):
    """Wait for workers; a worker stuck in one case for `hang` seconds is killed and marked."""
    while any(x["p"].poll() is None for x in ws):
        time.sleep(0.1)
        for x in ws:
            if x["p"].poll() is None:
                try:
                    name, i, t = json.load(open(x["out"] + ".cur"))
                except Exception:
                    continue
                if time.time() - t > hang:
                    x["hung"] = True
                    os.killpg(x["p"].pid, signal.SIGKILL)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    info = PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vm_%s_" % prop)
    try:
        rc = go(a, prop, tier, info, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def go(a, prop, tier, info, scratch, t0):
    only = None
    seed = a.seed
    flavours = info.get("flavours", ["plain"])
    if a.replay:
        r = json.load(open(a.replay))
        only, seed, tier = (r["case"], r["i"]), r["seed"], r["tier"]
        flavours = r.get("flavour", "plain")
        flavours = flavours if isinstance(flavours, list) else [flavours]
    sites = {}
    try:
        for fl in flavours:
            real = B.ALIAS.get(fl, fl)
            if real not in sites:
                sites[real], secs = B.build(scratch, real)
                print("built %s in %.1fs" % (real, secs), flush=True)
            sites[fl] = sites[real]
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    budget = a.budget or (info.get("quick_budget", 200) if tier == "quick" else 720 - (time.time() - t0))
    ws, results, crashed = [], [], []
    for fl in flavours:
        W = 1 if only else min(a.jobs, info.get("jobs", {}).get(fl, a.jobs))
        cur = [spawn(prop, tier, seed, fl, sites[fl], w, W, budget / len(flavours), scratch, only)
               for w in range(W)]
        finish(cur, info.get("hang", HANG))
        ws += cur
    violations, knowns, digests = [], {}, {}
    agg = dict(events=0, per_case={}, labels=set(), kinds={}, samples=[], notes={}, done=0,
               skipped=0, maxerr={}, case_seconds={})
    harness = []
    for x in ws:
        x["log"].seek(0)
        log = x["log"].read()
        if os.path.exists(x["out"]) and x["p"].returncode == 0:
            d = json.load(open(x["out"]))
            for k in ("per_case", "kinds", "notes", "case_seconds"):
                for kk, v in d[k].items():
                    agg[k][kk] = agg[k].get(kk, 0) + v
            for kk, v in d["maxerr"].items():
                agg["maxerr"][kk] = max(v, agg["maxerr"].get(kk, 0))
            agg["events"] += d["events"]
            agg["done"] += d["done"]
            agg["skipped"] += d["skipped"]
            agg["labels"] |= set(d["labels"])
            for s in d["samples"]:
                if len(agg["samples"]) < 8 and not any(t["case"] == s["case"] for t in agg["samples"]):
                    agg["samples"].append(s)
            knowns.update(d["knowns"])
            for kk, v in d["digests"].items():
                digests.setdefault(kk, {})[x["flavour"]] = v
            for v in d["violations"]:
                v["flavour"] = x["flavour"]
                violations.append(v)
            if d["harness_error"]:
                harness.append(d["harness_error"])
        else:
            try:
                name, i, t = json.load(open(x["out"] + ".cur"))
            except Exception:
                harness.append("worker died before its first case (rc=%s):\n%s" % (
                    x["p"].returncode, log[-3000:]))
                continue
            if "Traceback (most recent call last)" in log and x["p"].returncode == 1:
                harness.append(log[-3000:])
                continue
            if x["p"].returncode == -9 and not x["hung"]:
                harness.append("worker was killed (out of memory?) in case %s/%s" % (name, i))
                continue
            mech = "hang" if x["hung"] else (
                "sanitizer" if ("AddressSanitizer" in log or "runtime error:" in log) else
                "data-race" if "ThreadSanitizer: data race" in log else "native-crash")
            violations.append(dict(property=prop, case=name, i=i, mech=mech, seed=seed, tier=tier,
                                   flavour=x["flavour"], info=dict(returncode=x["p"].returncode),
                                   msg=report(log)))
    for kk, v in sorted(digests.items()):
        if len(set(v.values())) > 1:
            name, i = kk.rsplit("/", 1)
            violations.append(dict(property=prop, case=name, i=int(i), mech="results-differ", seed=seed, tier=tier,
                                   flavour=flavours, info={}, msg="the same calls gave different results under %s" % sorted(v)))
    agg["notes"]["cases_compared_between_settings"] = sum(len(v) > 1 for v in digests.values())
    # known findings
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = {k["key"]: k for k in kf["known"] if k["property"] == prop}
    for key, detail in sorted(knowns.items()):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[key]["what"]))
        else:
            violations.append(dict(property=prop, case=key, i=0, mech="unlisted-finding", seed=seed,
                                   tier=tier, flavour="plain", info={}, msg=detail))
    wall = time.time() - t0
    rep = os.environ.get("VM_REPLAYS", os.path.join(HERE, "replays"))
    os.makedirs(rep, exist_ok=True)
    lines = []
    seen = set()
    for v in violations:
        key = (v["case"], v["mech"])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rep, "%s_%s_%s.json" % (prop, v["case"], v["i"]))
        json.dump(v, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] case %s/%s (%s): %s" % (prop, v["case"], v["i"], v["mech"], v["msg"][:1500]))
    if not only:
        ev = dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=agg["done"],
                oracle_evaluations=agg["events"],
                distinct_nontrivial=len(agg["labels"]),
                rule=info["rule"],
                samples=agg["samples"],
                events_per_case=agg["per_case"],
                observed_kinds=agg["kinds"],
                notes=agg["notes"],
                cases_not_run_for_time=agg["skipped"],
                largest_error_over_tolerance=agg["maxerr"],
                builds=flavours,
            ),
            wall_s=round(wall, 2),
            assumptions=info.get("assumptions", []),
            violations=len(violations),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d cases, %d oracle evaluations, %d distinct, %d skipped, %.1fs" % (
        prop, agg["done"], agg["events"], len(agg["labels"]), agg["skipped"], wall))
    if a.v:
        for k, v in sorted(agg["case_seconds"].items()):
            print("   %-28s %8.2fs  %9d events" % (k, v, agg["per_case"].get(k, 0)))
        print("   err/tol:", {k: round(v, 4) for k, v in sorted(agg["maxerr"].items())})
        print("   kinds:", agg["kinds"], "notes:", agg["notes"])
    if lines:
        print("\n".join(lines))
        return 1
    if harness:
        print("NO VERDICT: " + "\n".join(harness))
        return 2
    if not only and (agg["events"] == 0 or len(agg["labels"]) < 2):
        print("NO VERDICT: the monitors observed nothing")
        return 2
    if not only:
        need = names_of_cases(prop)
        empty = [n for n in need if not agg["per_case"].get(n)]
        if empty:
            print("NO VERDICT: no event observed in cases %s" % empty)
            return 2
    return 0


def report(log):
    """The part of a dead worker's output that says why."""
    at = [log.find(q) for q in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Fatal Python error") if q in log]
    text = log[max(0, min(at) - 200):] if at else log[-6000:]
    return "\n".join(re.sub(r"(in )?(std::|pybind11::).* (/|\()", r"... \3", q)[:240] for q in text.splitlines() if "_fun" not in q)[:5000]


def names_of_cases(prop):
    src = open(os.path.join(HERE, "vm", prop.lower() + ".py")).read()
    m = re.search(r"^CASES = \[(.*?)^\]", src, re.S | re.M)
    return re.findall(r"^\s*\(\"([A-Za-z0-9_]+)\"", m.group(1), re.M)


if __name__ == "__main__":
    main()
