"""How long things stay in the trash, with a clock that can be put forward."""
import os

from hypothesis import strategies as st

import gen
import hist
from check import Check, Result
from gen import many
from hist import State, eq, show
from world import scan

DAY = 86400
PLANTS = ["file", "dir", "link-file", "link-dir", "link-remote", "link-local", "link-dangling", "dir-links"]


class TrashHistory(hist.History):
    """Knows when each entry of the trash was put there."""

    def __init__(self, ctx, plan):
        super().__init__(ctx, plan)
        self.put_at = {}
        self.w.clock = 0
        self.stats.update(expired=0, stayed=0, emptied=0)

    def now(self):
        return self.w.time_ns() / 1e9

    def sync(self, i, **kw):
        self.t0 = self.now()
        return super().sync(i, **kw)

    def period(self, i):
        n = self.w.clients[i].cfg.get("cleanup")
        return 30 if n is None else n

    def expect(self, i, before):
        E = super().expect(i, before)
        if self.period(i) == 0:
            # What goes to the trash now may be cleaned up at once.
            E.trash_optional += E.trash
            E.trash = []
        return E

    def compare(self, i, E, before, after):
        t0, t1 = self.t0, self.now()
        days = self.period(i)
        T0, T1 = before.T, after.T
        who = "sync of client %d: " % i
        keep = {}
        for n in sorted(p for p in T0 if "/" not in p):
            a, b = self.put_at.get(n, (t0, t0))
            same = n in T1 and eq(T0[n], T1[n])
            if days >= 0 and t0 - b >= days * DAY:
                self.stats["expired"] += 1
                if same:
                    self.bad("trash-age", who + "trash entry %s is %.4f days old and still there with a period of %d "
                             "days" % (n, (t0 - b) / DAY, days))
                continue
            if days < 0 or t1 - a < days * DAY:
                self.stats["stayed"] += 1
                if n not in T1:
                    self.bad("trash-age", who + "trash entry %s is %.4f days old and gone with a period of %d days" % (
                        n, (t1 - a) / DAY, days))
                keep[n] = T0[n]
            elif same:
                keep[n] = T0[n]
        before.T = {p: e for p, e in T0.items() if p.split("/")[0] in keep}
        super().compare(i, E, before, after)
        self.put_at = {n: v for n, v in self.put_at.items() if n in keep}
        for n in T1:
            if "/" not in n and n not in keep:
                self.put_at[n] = (t0, t1)

    def empty(self, i):
        w = self.w
        c = w.clients[i]
        before = State(w)
        res = self.watch(i, lambda: w.run(c, ["empty-trash", c.name]))
        if res.get("rc") != 0 or res.get("exc"):
            self.bad("rc", "empty-trash of client %d failed: %s" % (i, (res.get("err") or str(res))[-900:]))
            return
        after = State(w)
        self.stats["emptied"] += len([p for p in before.T if "/" not in p])
        for p in sorted(after.T):
            self.bad("trash-age", "after empty-trash, %s is still in the trash" % p)
        for name, a, b in [("remote", before.R, after.R)] + [
                ("local", before.L[j], after.L[j]) for j in before.L]:
            for p in sorted(set(a) | set(b)):
                if a.get(p) != b.get(p):
                    self.bad("outside", "empty-trash changed %s %s: %s -> %s" % (
                        name, p, show(a.get(p)), show(b.get(p))))
        self.put_at = {}

    def plant(self, name, kind):
        """Something that is in the trash for another reason than a sync of ours."""
        w = self.w
        d = w.R + "/.zielen/Trash"
        full = d + "/" + name
        if not os.path.isdir(d) or os.path.lexists(full):
            return
        t = w.now()
        if kind == "file":
            w.put(full, b"planted", 0o600, t)
        elif kind.startswith("dir"):
            os.mkdir(full)
            w.put(full + "/x", b"planted", 0o600, t - 10 ** 9 * DAY * 90)
            if kind == "dir-links":
                os.symlink(w.outside + "/sub", full + "/s")
                os.symlink(w.clients[0].L, full + "/l")
                os.symlink("../../a", full + "/r")
        else:
            os.symlink({"link-file": w.outside + "/o.txt", "link-dir": w.outside + "/sub", "link-remote": "../../d",
                        "link-local": w.clients[0].L, "link-dangling": "nowhere"}[kind], full)
        os.utime(full, ns=(t, t), follow_symlinks=False)
        self.put_at[name] = (t / 1e9 - 1, t / 1e9 + 1)
        self.stats["edits"] += 1

    def step(self, op):
        k = op[0]
        if k == "clock":
            self.w.clock += int(op[1] * 10 ** 9)
        elif k == "empty":
            if self.w.clients[op[1]].up:
                self.empty(op[1])
        elif k == "plant":
            self.plant(op[1], op[2])
        elif k == "rmtrash":
            d = self.w.R + "/.zielen/Trash"
            if os.path.isdir(d):
                hist.os.rename(d, self.w.root + "/tpl/oldtrash%d" % len(self.w.log))
                self.put_at = {}
        elif k == "old":
            full = self.w.clients[0].L
            paths = sorted(p for p, e in scan(full).items() if e[0] == "f")
            if paths and not self.w.clients[0].up:
                t = self.w.time_ns() - int(op[2] * DAY * 10 ** 9)
                t -= t % 1000
                os.utime(full + "/" + paths[op[1] % len(paths)], ns=(t, t))
        else:
            return super().step(op)


PERIODS = [None, -1, -30, 0, 1, 1, 2, 3, 7, 30, 45]


@st.composite
def plans(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    cfgs = [{"limit": draw(st.sampled_from(["100MiB", "0KiB", "0KiB", "8KiB", "16KiB"])),
             "use_trash": draw(st.sampled_from([None, True, True, False])), "inflate": None, "afs": None, "exclude": [],
             "cleanup": draw(st.sampled_from(PERIODS))} for _ in range(n)]
    plan = {"cfg": cfgs, "steps": []}
    S = plan["steps"]
    fp = st.one_of(gen.filepath(), st.sampled_from(["a", "d/a", "d2/a", "d/d2/a", "d2/d/a", "D e/a"]))
    w = st.tuples(st.just("w"), st.just("L0"), fp, st.sampled_from([0, 1, 5000]), st.integers(0, 3),
                  st.just("replace")).map(list)
    S.extend(many(draw, w, (3, 10)))
    S.extend(many(draw, st.tuples(st.just("old"), st.integers(0, 30), st.sampled_from([1, 20, 100, 4000])).map(list),
                  (0, 4)))
    S += [["init", 0], ["sync", 0]]
    for i in range(1, n):
        S.append(["init", i])
    sides = ["R"] + ["L%d" % i for i in range(n)]
    L = st.sampled_from(sides[1:])
    i = st.integers(0, n - 1)
    num = st.integers(0, 30)
    ph = st.tuples(st.just("rmph"), L, num).map(list)
    step = st.one_of(
        ph, ph, ph, st.tuples(st.just("rm"), L, gen.somedir()).map(list),
        st.tuples(st.just("w"), st.sampled_from(sides), fp, st.sampled_from([0, 1, 5000]), st.integers(0, 3),
                  st.just("replace")).map(list),
        st.tuples(st.just("ln"), L, fp, st.sampled_from(gen.ACYCLIC_TARGETS)).map(list),
        st.tuples(st.just("plant"), st.sampled_from(["a", "p", "d", "q q", ".h"]), st.sampled_from(PLANTS)).map(list),
        st.just(["mine", 0]))
    clock = st.tuples(st.sampled_from([0, 1, 1, 2, 3, 7, 14, 29, 30, 31, 45]), st.sampled_from([-60, -60, 60, 60, 3600]))
    for _ in range(draw(st.integers(2, 7))):
        S.extend(many(draw, step, (1, 4)))
        S.append(["sync", draw(i)])
        if draw(st.integers(0, 7)) == 0:
            S.append(["cfg", draw(i), {"cleanup": draw(st.sampled_from(PERIODS))}])
        d, s = draw(clock)
        S.append(["clock", max(0, d * DAY + s)])
        what = draw(st.integers(0, 9))
        if what == 0:
            S.append(["empty", draw(i)])
        elif what == 1:
            S.append(["rmtrash"])
    for k in range(n):
        S.append(["sync", k])
    return plan


class C13(Check):
    id = "C13"
    technique = "model-based property testing of deletion histories with a clock that is put forward"
    rule = ("A case is a random history by one or two clients that deletes placeholders and directories, puts other things "
            "into the trash, changes the clean-up period and lets hours to weeks pass between syncs; after each sync the "
            "trash is compared with what should have been put there and have expired. Non-trivial: at least one entry had "
            "to expire or be emptied and one had to stay.")
    tags = {"trash-age", "trash-old", "trash-missing", "trash-name", "trash-extra", "outside", "rc"}
    quick = 60

    def strategy(self, tier, shard):
        return plans()

    def run(self, ctx, plan):
        h = TrashHistory(ctx, plan)
        try:
            for op in plan["steps"]:
                h.step(op)
                if h.problems:
                    break
            s = h.stats
            return Result(h.problems, s["stayed"] > 0 and s["expired"] + s["emptied"] > 0, s, h.w.log)
        finally:
            h.close()


CHECKS = {c.id: c() for c in (C13,)}
