"""Commands for which there is not enough room on the filesystem they copy files to."""
import os

from hypothesis import strategies as st

import gen
import hist
from c_cli import refused, unchanged
from check import Check, Result
from gen import many
from hist import State, eq, excluded

BLOCK = 4096
LOTS = 1 << 40


def blocks(e):
    """Bytes that a file of the harness takes up."""
    return -(-e[1] // BLOCK) * BLOCK


def usage(root, rels):
    return sum(os.lstat(root + "/" + p).st_blocks * 512 for p in rels)


class C34(Check):
    id = "C34"
    technique = "model-based property testing of histories with a simulated amount of free space"
    rule = ("A case is a random tree that is initialised and a random history by one or two clients that ends with resets, in "
            "which init and reset are first tried with less room than the files need (reported by statvfs), must be refused and "
            "change no file, and are then repeated with enough room. Non-trivial: two commands were refused for lack of room.")
    tags = {"refusal", "accepted", "changed", "rc", "init-remote", "init-local", "init-excluded", "init-unsafe", "reset-local",
            "reset-remote", "reset-placeholder", "reset-profile", "content-lost", "remote-missing", "remote-lost-unchanged",
            "remote-extra", "remote-entry", "local-missing", "local-entry", "local-extra", "partial"}
    quick = 50

    def strategy(self, tier, shard):
        return self.plans(shard % 2 == 1)

    @staticmethod
    @st.composite
    def plans(draw, exclude):
        plan = draw(gen.reset_history(exclude=exclude))
        n = len(plan["cfg"])
        for c in plan["cfg"]:
            c["limit"] = draw(st.sampled_from([c["limit"], "0KiB", "8KiB"]))
        plan["steps"].insert(0, ["w", "L0", draw(gen.filepath()), 5000, 0, "replace"])
        frac = st.sampled_from([0, 1, 50, 90, 99, 100])
        S = []
        for op in plan["steps"]:
            if op[0] == "init":
                if op[1] == 0:
                    for f in many(draw, frac, (1, 2)):
                        S.append(["lack", "init", 0, "", f])
                S.append(["room"] + [op[0], op[1], "", draw(st.integers(0, 2))])
            elif op[0] == "reset":
                for f in many(draw, frac, (1, 2)):
                    S.append(["lack", "reset", op[1], op[2].replace("n", ""), f])
                    if draw(st.integers(0, 3)) == 0:
                        S.append(["sync", draw(st.integers(0, n - 1))])
                S.append(["room", "reset", op[1], op[2], draw(st.integers(0, 2))])
            else:
                S.append(op)
        plan["steps"] = S
        return plan

    def valid(self, plan):
        return [op[2] for op in plan["steps"] if op[:2] == ["room", "init"]] == list(range(len(plan["cfg"])))

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        h.stats.update(refused=0)
        try:
            for op in plan["steps"]:
                if op[0] in ("lack", "room"):
                    getattr(self, op[0] + "_" + op[1])(h, *op[2:])
                else:
                    h.step(op)
                if h.problems:
                    break
            return Result(h.problems, h.stats["refused"] > 1, h.stats, h.w.log)
        finally:
            h.close()

    def less(self, need, f):
        """An amount of room that is not enough."""
        return max(0, min(need - BLOCK, need * f // 100 // BLOCK * BLOCK))

    def lack_init(self, h, i, opts, f):
        w = h.w
        c = w.clients[i]
        if c.up:
            return
        L = w.local(i)
        X = excluded(c.patterns, {p: e[0] == "d" for p, e in L.items()})
        need = usage(c.L, [p for p, e in L.items() if e[0] == "f" and p not in X])
        if not need:
            return
        free = self.less(need, f)
        c.cfg["patch"] = {"space": {w.R: free, c.L: LOTS}}
        before = self.files(w)
        res = w.init(i)
        c.cfg["patch"] = None
        who = "init with room for %d of %d bytes: " % (free, need)
        if res.get("rc") == 0:
            c.up = False
            h.bad("accepted", who + "was not refused")
            return
        if refused(h, who, res, "space"):
            h.stats["refused"] += 1
        unchanged(h, who, before, self.files(w))
        res = w.run(c, ["sync", c.name])
        refused(h, who + "then a sync: ", res)
        unchanged(h, who + "then a sync: ", before, self.files(w))

    def files(self, w):
        """The files of the user."""
        out = {}
        R = os.path.relpath(w.R, w.root)
        for p, e in w.freeze().items():
            if p.split("/")[0].startswith("cfg") or p.startswith(R + "/.zielen/") or p == R + "/.zielen":
                continue
            out[p] = e
        return out

    def room_init(self, h, i, opts, f):
        w = h.w
        c = w.clients[i]
        L = w.local(i)
        if i:
            # Only symlinks are made.
            free = {w.R: LOTS, c.L: [0, BLOCK, LOTS][f]}
        else:
            top = usage(c.L, L) + BLOCK * 4
            free = {w.R: [top, top * 2, LOTS][f], c.L: LOTS if f else 0}
        c.cfg["patch"] = {"space": free}
        h.init(i)
        c.cfg["patch"] = None

    def lack_reset(self, h, i, opts, f):
        w = h.w
        c = w.clients[i]
        if not c.up:
            return
        s = State(w)
        # Files that are only in the remote directory and that the client has seen there.
        need = usage(w.R, [p for p, e in s.R.items() if e[0] == "f" and eq(c.base.get(p), e)
                           and s.L[i].get(p) == ("l", w.R + "/" + p) + tuple(s.L[i].get(p, ())[2:])])
        if not need:
            return
        free = self.less(need, f)
        before = w.freeze()
        res = w.run(c, ["reset"] + (["-k"] if "k" in opts else []) + [c.name], patch={"space": {c.L: free, w.R: LOTS}})
        who = "reset of client %d with room for %d of %d bytes: " % (i, free, need)
        if res.get("rc") == 0:
            h.bad("accepted", who + "was not refused")
            return
        if refused(h, who, res, "space"):
            h.stats["refused"] += 1
        unchanged(h, who, before, w.freeze())

    def room_reset(self, h, i, opts, f):
        w = h.w
        c = w.clients[i]
        if not c.up:
            return
        if "n" in opts:
            free = [0, BLOCK, LOTS][f]
        else:
            top = usage(w.R, w.remote()) + BLOCK * 64
            free = [top, top * 2, LOTS][f]
        before = State(w)
        argv = ["reset"] + (["-k"] if "k" in opts else []) + (["-n"] if "n" in opts else []) + [c.name]
        h.reset(i, opts, before=before, res=h.watch(i, lambda: w.run(
            c, argv, patch={"space": {c.L: free, w.R: 0}})))


CHECKS = {c.id: c() for c in (C34,)}
