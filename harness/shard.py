"""One worker: generates plans with Hypothesis and runs them. Runs as nobody, in a scratch directory."""
import argparse
import hashlib
import json
import os
import random
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "checks")]

from hypothesis import HealthCheck, Phase, given, seed, settings      # noqa: E402
import registry                                                         # noqa: E402
from check import canon, ddmin                                          # noqa: E402
from zyg import HarnessError, Zygote                                    # noqa: E402
import world                                                            # noqa: E402


class Stop(BaseException):
    pass


class Ctx:
    def __init__(self, scratch, tag, kind, shim, repo, tier):
        self.scratch, self.tag, self.kind, self.shim, self.repo, self.tier = scratch, tag, kind, shim, repo, tier
        self.ncase = 0
        self._z = None

    @property
    def z(self):
        if self._z is None:
            self._z = Zygote(self.scratch + "/z", self.kind, shim=self.shim, repo=self.repo)
        return self._z

    def restart(self):
        if self._z is not None:
            self._z.close()
            self._z = None

    def close(self):
        self.restart()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    ap.add_argument("--shim")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--replay")
    ap.add_argument("--known")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    os.umask(0o022)
    chk = registry.get(a.check)
    kind = chk.kinds[a.shard % len(chk.kinds)]
    # Locks are global, so that a run must not use the names of another one.
    ctx = Ctx(a.scratch, "%s%d%x" % (a.check.lower(), a.shard, os.getpid()), kind, a.shim, a.repo, a.tier)
    out = {"kind": kind, "evaluations": 0, "hashes": [], "samples": [], "stats": {}, "foreign": {},
           "failure": None, "unreproduced": 0, "known": []}
    t0 = time.monotonic()
    cap = chk.cap_quick if a.tier == "quick" else chk.cap_thorough
    total = a.cases or (int(chk.quick * chk.more) if a.tier == "quick" else chk.thorough)
    if kind == "pypy":
        total = max(1, int(total * chk.pypy_share))
    stop_flag = os.path.join(os.path.dirname(a.scratch), "stop")
    nontrivial = set()

    def run1(plan):
        r = chk.run(ctx, json.loads(canon(plan)))
        return r, chk.mine(r.problems)

    def account(plan, r):
        out["evaluations"] += 1 + int(r.stats.get("runs", 1)) - 1
        for k, v in r.stats.items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        h = hashlib.md5(canon(plan).encode()).hexdigest()[:16]
        if r.nontrivial:
            first = h not in nontrivial
            nontrivial.add(h)
            if first and len(nontrivial) in (1, 5, 17):
                out["samples"].append(plan)
        for t, _ in r.problems:
            if chk.tags is not None and t not in chk.tags:
                out["foreign"][t] = out["foreign"].get(t, 0) + 1

    def failed(plan, problems):
        """Confirm, shrink, store."""
        tags = {p[0] for p in problems}

        def fails(p, tries=1):
            for _ in range(tries):
                try:
                    if chk.valid(p) and {q[0] for q in run1(p)[1]} & tags:
                        return True
                except (HarnessError, KeyError, IndexError, ValueError, TypeError):
                    ctx.restart()
            return False
        if not fails(plan, 4):
            out["unreproduced"] += 1
            return
        limit = time.monotonic() + (25 if a.tier == "quick" else 90)
        small = ddmin(plan, chk.lists, fails, lambda: time.monotonic() > limit)
        probs, log = None, []
        for _ in range(4):
            r, probs = run1(small)
            log = r.log
            if probs:
                break
        out["failure"] = {"plan": small, "original": plan, "problems": (probs or problems)[:8],
                          "log": log[-6:], "kind": kind}
        open(stop_flag, "w").close()
        raise Stop()

    def one(plan):
        if time.monotonic() - t0 > cap or os.path.exists(stop_flag):
            raise Stop()
        try:
            r, probs = run1(plan)
        except HarnessError:
            ctx.restart()
            r, probs = run1(plan)
        account(plan, r)
        if probs:
            failed(plan, probs)

    code = 0
    try:
        if a.replay:
            with open(a.replay) as f:
                rec = json.load(f)
            plan = rec.get("plan", rec)
            for _ in range(3):
                r, probs = run1(plan)
                if probs:
                    break
            out["failure"] = {"plan": plan, "problems": probs[:8], "log": r.log[-6:], "kind": kind} if probs else None
        elif a.known:
            with open(a.known) as f:
                for item in json.load(f):
                    r, probs = run1(item["plan"])
                    out["known"].append({"id": item["id"], "fails": bool(probs), "problems": probs[:3]})
        else:
            try:
                for k, plan in enumerate(chk.fixed()):
                    if k % a.nshards == a.shard:
                        one(plan)
                if total:
                    @seed(a.seed * 1000 + a.shard)
                    @settings(max_examples=total, deadline=None, database=None, print_blob=False,
                              suppress_health_check=list(HealthCheck), phases=[Phase.generate])
                    @given(chk.strategy(a.tier, a.shard))
                    def test(plan):
                        one(json.loads(canon(plan)))
                    test()
            except Stop:
                pass
    except BaseException:
        out["error"] = traceback.format_exc()[-4000:]
        code = 3
    finally:
        ctx.close()
    out["hashes"] = sorted(nontrivial)
    out["wall"] = time.monotonic() - t0
    with open(a.out, "w") as f:
        json.dump(out, f)
    return code


if __name__ == "__main__":
    sys.exit(main())
