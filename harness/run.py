#!/usr/bin/env python3
"""Entry point of every check: run.py C01 [--replay FILE] [--tier quick|thorough] [--shards N]

Prepares a scratch directory on a tmpfs, starts the workers there as user nobody, merges what they report,
writes the evidence file and gives the verdict: 0 held, 1 violated, 2 or more the machinery failed."""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# For experiments with changed copies of the repository; the registered commands don't set these.
REPO = os.environ.get("ZV_REPO") or "/repo"
EVIDENCE = os.environ.get("ZV_EVIDENCE") or os.path.join(VERIF, "evidence")
PYVT = "/opt/veriftools/pyvenv/bin/python"
SETPRIV = ["setpriv", "--reuid", "nobody", "--regid", "nogroup", "--clear-groups"]


def prepare(check_id):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    top = os.path.join(base, "zv-%s-%d" % (check_id, os.getpid()))
    os.makedirs(top, mode=0o755)
    os.chmod(top, 0o755)
    for d in ("harness", "checks"):
        shutil.copytree(os.path.join(VERIF, d), os.path.join(top, d),
                        ignore=shutil.ignore_patterns("__pycache__"))
    for d, _, fs in os.walk(top):
        os.chmod(d, 0o755)
        for f in fs:
            os.chmod(os.path.join(d, f), 0o644)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", top + "/shim.so", top + "/harness/shim.c", "-ldl"],
                   check=True)
    os.chmod(top + "/shim.so", 0o755)
    os.mkdir(top + "/work")
    os.chmod(top + "/work", 0o777)
    return top


def remove(top):
    """The scratch trees belong to nobody; removed by root."""
    shutil.rmtree(top, ignore_errors=True)


def worker_cmd(top, args):
    cmd = [PYVT, "-B", top + "/harness/shard.py"] + args
    if os.getuid() == 0:
        cmd = SETPRIV + cmd
    return cmd


def start(top, check_id, k, n, args):
    scratch = top + "/work/s%d" % k
    os.mkdir(scratch)
    os.chmod(scratch, 0o777)
    out = scratch + "/out.json"
    cmd = worker_cmd(top, [check_id, "--shard", str(k), "--nshards", str(n), "--out", out, "--scratch", scratch,
                           "--shim", top + "/shim.so", "--repo", REPO] + args)
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": scratch, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
           "PYTHONDONTWRITEBYTECODE": "1", "TMPDIR": scratch, "TZ": "UTC",
           "HYPOTHESIS_STORAGE_DIRECTORY": scratch + "/hyp"}
    if os.environ.get("ALLTAGS"):
        env["ALLTAGS"] = "1"
    log = open(scratch + "/log", "wb")
    return subprocess.Popen(cmd, env=env, cwd=scratch, stdout=log, stderr=log, stdin=subprocess.DEVNULL), out, scratch


def collect(jobs, limit):
    outs, errors = [], []
    deadline = time.monotonic() + limit
    for p, out, scratch in jobs:
        try:
            p.wait(max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("a worker ran into the time limit")
        try:
            with open(out) as f:
                o = json.load(f)
            outs.append(o)
            if o.get("error"):
                errors.append(o["error"])
        except (FileNotFoundError, ValueError):
            with open(scratch + "/log", errors="replace") as f:
                errors.append("a worker died: " + f.read()[-2000:])
    return outs, errors


def report(chk_id, failure, where):
    os.makedirs(EVIDENCE, exist_ok=True)
    name = "replay-%s-%s.json" % (chk_id, hashlib.md5(json.dumps(failure["plan"], sort_keys=True).encode()).hexdigest()[:8])
    path = os.path.join(EVIDENCE, name)
    with open(path, "w") as f:
        json.dump(dict(failure, property=chk_id), f, indent=1)
    for tag, msg in failure["problems"]:
        print("  [%s] %s" % (tag, msg))
    for line in failure.get("log") or []:
        print("  ran: %s" % (line,))
    print("VIOLATION property=%s replay=%s" % (chk_id, path))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--cases")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    sys.path[:0] = [os.path.join(VERIF, "harness"), os.path.join(VERIF, "checks")]
    sys.dont_write_bytecode = True
    meta = json.loads(subprocess.run(
        [PYVT, "-B", "-c", "import sys;sys.path[:0]=%r;import registry,json;c=registry.get(%r);"
         "print(json.dumps(dict(level=c.level,rule=c.rule,assumptions=c.assumptions,shards=len(c.kinds))))"
         % ([os.path.join(VERIF, "harness"), os.path.join(VERIF, "checks")], a.check)],
        check=True, capture_output=True, text=True).stdout)
    t0 = time.monotonic()
    top = prepare(a.check)
    try:
        if a.replay:
            shutil.copy(a.replay, top + "/replay.json")
            os.chmod(top + "/replay.json", 0o644)
            with open(a.replay) as f:
                kind = json.load(f).get("kind")
            outs, errors = collect([start(top, a.check, 7 if kind == "pypy" else 0, 8,
                                          ["--replay", top + "/replay.json"])], 300)
            for o in outs:
                if o["failure"]:
                    report(a.check, o["failure"], top)
                    return 1
            for e in errors:
                print(e)
            print("held on the replayed case" if not errors else "the machinery failed")
            return 2 if errors else 0
        n = min(a.shards, meta["shards"])
        args = ["--seed", str(a.seed), "--tier", a.tier] + (["--cases", a.cases] if a.cases else [])
        limit = 400 if a.tier == "quick" else 850
        jobs = [start(top, a.check, k, n, args) for k in range(n)]
        known_path = os.path.join(VERIF, "checks", "known.json")
        known = []
        if os.path.exists(known_path):
            with open(known_path) as f:
                known = [x for x in json.load(f) if x["property"] == a.check]
        outs, errors = collect(jobs, limit)
        kouts = []
        if known and not errors:
            with open(top + "/known.json", "w") as f:
                json.dump(known, f)
            os.chmod(top + "/known.json", 0o644)
            kouts, kerr = collect([start(top, a.check, 100 * 8, 1, ["--known", top + "/known.json"])], 120)
            errors += kerr
    finally:
        if not a.keep:
            remove(top)
    hashes = set()
    stats, foreign, samples = {}, {}, []
    for o in outs:
        hashes |= set(o["hashes"])
        samples += o["samples"]
        for d, s in ((stats, o["stats"]), (foreign, o["foreign"])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
    failures = [o["failure"] for o in outs if o["failure"]]
    ev = {"property": a.check, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": meta["level"],
          "coverage": {"evaluations": sum(o["evaluations"] for o in outs),
                       "distinct_nontrivial": len(hashes), "rule": meta["rule"],
                       "samples": samples[:3],
                       "totals": stats,
                       "cases_per_interpreter": {k: sum(o["evaluations"] for o in outs if o["kind"] == k)
                                                 for k in {o["kind"] for o in outs}},
                       "cases_ended_by_a_divergence_of_another_property": foreign,
                       "failures_that_did_not_reproduce": sum(o["unreproduced"] for o in outs)},
          "assumptions": meta["assumptions"],
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(failures)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, a.check + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for o in kouts:
        for k in o["known"]:
            if k["fails"]:
                item = [x for x in known if x["id"] == k["id"]][0]
                print("KNOWN-FINDING: property=%s %s" % (a.check, item["what"]))
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f["plan"])))
        report(a.check, failures[0], top)
        return 1
    if errors:
        print(errors[0].split("Failing test case")[0].split("Falsifying example")[0][-1500:])
        print("the machinery failed")
        return 2
    print("%s held on %d cases (%d distinct and non-trivial) in %.0f s" % (
        a.check, ev["coverage"]["evaluations"], len(hashes), ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
