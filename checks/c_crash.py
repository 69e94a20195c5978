"""Commands that are killed, interrupted or made to fail at arbitrary points, against a run without that.

The state before the command is stored, the command is run once undisturbed to count its operations on the
filesystem and to get the reference result, and then again from the stored state with a fault at each of
the points of the plan."""
import copy
import errno
import os
import signal
import time

from hypothesis import strategies as st

import gen
import hist
from check import Check, Result
from gen import many
from hist import State, digests, eq, show
from model import parents
from world import CONFLICT, ApiError, copy_world, is_unsafe_target, rmtree

KILL, FAIL, FAILON, TERM, PARTIAL = 1, 2, 3, 4, 6
SIGNALS = [int(signal.SIGTERM), int(signal.SIGINT), int(signal.SIGHUP)]
ERRNOS = [errno.EIO, errno.ENOSPC, errno.EACCES]


WHAT = {KILL: "a kill", PARTIAL: "a kill", TERM: "a signal", FAIL: "a failure", FAILON: "failures from then on"}


class Snapshot:
    """The whole scratch world and what the harness knows about it."""

    def __init__(self, h):
        self.h = h
        self.dir = h.w.root + ".snap"
        self.save()

    def save(self):
        h = self.h
        rmtree(self.dir)
        copy_world(h.w.root, self.dir)
        self.mem = copy.deepcopy((h.reg, h.wasp, h.shadowed, h.ambiguous,
                                  [(c.base, c.up, c.patterns, c.cfg) for c in h.w.clients]))

    def restore(self):
        h = self.h
        rmtree(h.w.root)
        copy_world(self.dir, h.w.root)
        h.reg, h.wasp, h.shadowed, h.ambiguous, cl = copy.deepcopy(self.mem)
        for c, v in zip(h.w.clients, cl):
            c.base, c.up, c.patterns, c.cfg = v

    def remove(self):
        rmtree(self.dir)


def split(tree):
    """Conflict copies apart from the rest."""
    plain = {p: e for p, e in tree.items() if not CONFLICT.match(p)}
    copies = {p: e for p, e in tree.items() if CONFLICT.match(p)}
    return plain, copies


def stem(p):
    m = CONFLICT.match(p)
    while m:                # there can be a conflict about a conflict copy
        p = m.group("stem") + (m.group("ext") or "")
        m = CONFLICT.match(p)
    return p


class CrashCheck(Check):
    lists = ["steps", "at"]
    points = (3, 6)
    faults = [KILL, KILL, KILL, PARTIAL, TERM]
    victim = "sync"

    # -- what a case is -----------------------------------------------------------------------
    def at(self):
        k = st.integers(0, 12000)
        fault = st.sampled_from(self.faults)
        second = st.one_of(st.none(), st.none(), k)
        return st.tuples(k, fault, st.integers(0, 2), second, st.integers(0, 3)).map(list)

    # -- pieces --------------------------------------------------------------------------------
    def nth(self, a, ref):
        """Where the fault happens.

        At any operation, at one of a kind that is chosen first, or where the command turns from one file of its own or one
        tree to the next.
        """
        n, kinds = ref["ops"], ref.get("kinds") or []
        k = a[0] // 3
        if a[0] % 3 == 0 or len(kinds) != n:
            return k % n + 1
        if a[0] % 3 == 2:
            about = [x.split(" ", 1)[-1].split(".db")[0] for x in kinds]
            turns = {}
            for i in range(1, n):
                if about[i] != about[i - 1]:
                    turns.setdefault((about[i - 1], about[i]), []).append(i)
            if turns:
                at = turns[sorted(turns)[k % len(turns)]]
                return at[k // len(turns) % len(at)] + 1
        names = sorted(set(kinds))
        at = [i for i, x in enumerate(kinds) if x == names[k % len(names)]]
        return at[k // len(names) % len(at)] + 1

    def inject(self, a, ref):
        k, mode, e = self.nth(a, ref), a[1], a[2]
        inj = {"at": k, "mode": mode}
        if mode == TERM:
            inj["err"] = SIGNALS[e % 3]
        elif mode in (FAIL, FAILON):
            inj["err"] = ERRNOS[e % 3]
        return inj

    def lost(self, h, who, keep, now):
        lost = keep - now.all_digests()
        if lost:
            h.bad("content-lost", who + "content is gone: " + ", ".join(
                "%s (was at %s)" % (d, h.where(self.before, d)) for d in sorted(lost)))

    def same_tree(self, h, who, name, ref, now, known, tag, other=()):
        """The same tree, but for conflict copies that the interruption may add, or leave in the other tree only."""
        a, ac = split(ref)
        b, bc = split(now)
        for p in sorted(set(a) | set(b)):
            if a.get(p) is None and b[p][0] == "d" and p in self.may_stay:
                continue        # an excluded directory, nothing in it is at stake
            if not eq(a.get(p), b.get(p)):
                h.bad(tag, who + "%s %s is %s, without the interruption %s" % (name, p, show(b.get(p)),
                                                                               show(a.get(p))))
        rest = dict(bc)
        for p, e in sorted(ac.items()):
            found = [q for q in rest if q == p and eq(rest[q], e)] or [
                q for q in rest if stem(q) == stem(p) and eq(rest[q], e)]
            if found:
                del rest[found[0]]
            elif not any(CONFLICT.match(q) and stem(q) == stem(p) and eq(other[q], e) for q in other):
                h.bad(tag, who + "%s has no conflict copy like %s: %s" % (name, p, show(e)))
        for q, e in sorted(rest.items()):
            if e[0] == "f" and e[1] not in known and not e[1].endswith(":0"):
                h.bad(tag, who + "%s has a conflict copy %s with unknown content: %s" % (name, q, show(e)))

    def presented(self, h, i):
        return h.w.presented(i)

    def ok(self, h, who, res):
        if res.get("rc") != 0 or res.get("exc") or res.get("signal"):
            h.bad("recover", who + "failed: %s" % (res.get("err") or str(res))[-900:])
            return False
        return True

    def failed_cleanly(self, h, who, res, mode):
        if mode in (KILL, PARTIAL):
            return res.get("signal") == 9
        return True

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        snap = None
        try:
            for op in plan["steps"]:
                h.step(op)
                if h.problems:
                    return Result(h.problems, False, h.stats, h.w.log)
            i = plan["victim"][1]
            if not self.ready(h, i):
                return Result([], False, h.stats, h.w.log)
            before = self.before = State(h.w)
            snap = Snapshot(h)
            self.snap = snap
            ref = self.reference(h, i, plan)
            if ref is None:
                return Result(h.problems, False, h.stats, h.w.log)
            n = ref["ops"]
            hits = 0
            for a in plan["at"]:
                snap.restore()
                self.point(h, i, plan, a, ref, snap)
                hits += 1
                if h.problems:
                    break
            h.stats["runs"] = max(1, hits)
            h.stats["faults"] = hits
            h.stats["operations"] = n
            nt = hits > 0 and ref["changed"]
            return Result(h.problems, nt, h.stats, h.w.log)
        finally:
            h.close()
            rmtree(h.w.root + ".snap")

    def ready(self, h, i):
        return h.w.clients[i].up

    # a second interruption, during the repetition
    def again(self, h, i, a, who, run):
        if a[3] is None:
            return
        res = run({"at": a[3] % 150 + 1, "mode": KILL})
        self.lost(h, who + "and killed again, ", self.keep, State(h.w))


class C14(CrashCheck):
    id = "C14"
    technique = "fault-injection property testing of sync (kill, torn write, signal) against an undisturbed run"
    rule = ("A case is a random history by one or two clients, then one sync that is interrupted at 3-6 random operations "
            "on the filesystem (kill, kill in the middle of a write, or signal; sometimes a second kill during the repetition "
            "or a sync of the other client in between); each interruption counts as one evaluation. Non-trivial: the "
            "undisturbed sync changes something.")
    tags = {"content-lost", "recover", "result", "records", "again-after"}
    quick = 24
    thorough = 600
    cap_quick = 90

    def strategy(self, tier, shard):
        @st.composite
        def s(draw):
            bias = draw(st.sampled_from([None, "rm", "rm", "conflict", "exclude" if shard % 2 else "link", "swap", "cross",
                                         "names"]))
            plan = draw(gen.history(nclients=(1, 2), rounds=(0, 2), unsafe=True, exclude=shard % 2 == 1, last=0,
                                    bias=bias, per=(1, 4), ties=True, small=draw(st.booleans())))
            n = len(plan["cfg"])
            S = plan["steps"]
            if S[-1][0] == "sync":
                S.pop()
            sides = ["R"] + ["L%d" % i for i in range(n)]
            targets = gen.ACYCLIC_TARGETS if shard % 2 else gen.SAFE_TARGETS
            one = gen.edit(sides, unsafe=True, targets=targets).map(lambda o: [o])
            if bias:
                one = st.one_of(one, gen.biased(bias, n, sides, True, targets))
            for x in many(draw, one, (2, 6)):
                S.extend(x)
            plan["victim"] = ["sync", draw(st.integers(0, n - 1))]
            plan["at"] = many(draw, self.at(), self.points if tier == "quick" else (6, 12))
            return plan
        return s()

    def reference(self, h, i, plan):
        w = h.w
        c = w.clients[i]
        before = self.before
        # The other clients go by the patterns of the last complete sync.
        registered = h.reg.get(i) == c.patterns
        last_sync = w.records(c)["last_sync"]
        res = w.sync(i, inject={"mode": 0})
        h.sync(i, res=res, before=before)
        if h.problems:
            return None
        after = State(w)
        ref = {"ops": res["ops"], "kinds": res.get("kinds"), "after": after, "pres": {c.i: w.presented(c.i) for c in w.clients if c.up},
               "rec": w.records(c), "changed": after.L != before.L or after.R != before.R or after.T != before.T}
        self.keep = before.all_digests() & after.all_digests()
        self.may_stay = {p for p in hist.excluded(c.patterns, {p: e[0] == "d" for p, e in before.R.items()})
                         if before.R[p][0] == "d"}
        ref["last_sync"] = last_sync
        if registered and len(w.clients) > 1:
            for j in [k.i for k in w.clients if k.i != i and k.up] + [i]:
                h.sync(j)
                if h.problems:
                    h.problems.clear()
                    break
            else:
                ref["R2"] = w.remote()
        return ref

    def point(self, h, i, plan, a, ref, snap):
        w = h.w
        c = w.clients[i]
        res = w.sync(i, inject=self.inject(a, ref))
        who = "sync of client %d with %s at operation %d of %d, " % (
            i, WHAT[a[1]], self.nth(a, ref), ref["ops"])
        if a[1] in (FAIL, FAILON):
            self.clean(h, c, who, res, ref)
        self.lost(h, who + "then ", self.keep, State(w))
        self.again(h, i, a, who, lambda inj: w.sync(i, inject=inj))
        if h.problems:
            return
        known = self.before.all_digests() | ref["after"].all_digests()
        others = [k.i for k in w.clients if k.up and k.i != i]
        if others and a[4] == 1 and "R2" in ref:
            for j in others + [i] + others:
                if not self.ok(h, who + "then a sync of client %d " % j, w.sync(j)):
                    return
            self.lost(h, who + "then syncs of both, ", self.keep & digests(ref["R2"]), State(w))
            # What the other client has deleted in the meantime can come back.
            now = w.remote()
            back = {p: e for p, e in now.items() if p not in ref["R2"] and eq(e, self.before.R.get(p))}
            # What it has added can have met a file that this one was about to delete.
            aside = {p for p, e in ref["R2"].items() if p not in now and any(
                CONFLICT.match(q) and stem(q) == p and eq(x, e) for q, x in now.items())}
            want = {p: e for p, e in ref["R2"].items() if p not in aside}
            self.same_tree(h, who + "then syncs of both, ", "remote", dict(back, **want), now, known, "result")
            return
        if not self.ok(h, who + "then a sync ", w.sync(i)):
            return
        now = State(w)
        who += "then a sync, "
        self.lost(h, who, self.keep, now)
        self.same_tree(h, who, "remote", ref["after"].R, now.R, known, "result")
        self.same_tree(h, who, "local", ref["pres"][i], w.presented(i), known, "result")
        rec = w.records(c)
        for k in ("local", "remote"):
            x = {p: v[0] for p, v in ref["rec"][k].items() if not CONFLICT.match(p)}
            y = {p: v[0] for p, v in rec[k].items() if not CONFLICT.match(p)}
            for p in sorted(set(x) | set(y)):
                if x.get(p) != y.get(p) and p not in self.may_stay:
                    h.bad("records", who + "the %s record of %s is %s, without the interruption %s" % (
                        k, p, y.get(p), x.get(p)))
        if h.problems:
            return
        if not self.ok(h, who + "then another sync ", w.sync(i)):
            return
        after = State(w)
        who += "then another, "
        for name, x, y in (("remote", now.R, after.R), ("local", now.L[i], after.L[i]), ("trash", now.T, after.T)):
            for p in sorted(set(x) | set(y)):
                if not eq(x.get(p), y.get(p)) and not (
                        name == "local" and x.get(p) and y.get(p) and "l" in (x[p][0], y[p][0])):
                    h.bad("again-after", who + "%s %s was %s, is %s" % (name, p, show(x.get(p)), show(y.get(p))))


class C31(C14):
    id = "C31"
    technique = "fault-injection property testing of sync (failing operations) against an undisturbed run"
    rule = ("A case is a random history by one or two clients, then one sync in which one operation on the filesystem, or "
            "every one from some point on, fails with EIO, ENOSPC or EACCES, at 3-6 random points; each counts as one "
            "evaluation. Non-trivial: the undisturbed sync changes something.")
    tags = C14.tags | {"status"}
    faults = [FAIL, FAIL, FAILON]
    points = (3, 6)

    def clean(self, h, c, who, res, ref):
        w = h.w
        if res.get("signal") or res.get("timeout"):
            h.bad("status", who + "ended by signal %s" % res.get("signal"))
        elif res.get("rc") == 0:
            # The failure was of no consequence, or has been dealt with.
            now = State(w)
            known = self.before.all_digests() | ref["after"].all_digests()
            self.same_tree(h, who + "exit status 0, ", "remote", ref["after"].R, now.R, known, "status")
            self.same_tree(h, who + "exit status 0, ", "local", ref["pres"][c.i], w.presented(c.i), known, "status")
        elif w.records(c)["last_sync"] != ref["last_sync"]:
            h.bad("status", who + "exit status %r, but the sync is recorded as done" % res.get("rc"))


class C16(CrashCheck):
    id = "C16"
    technique = "fault-injection property testing of init (kill, torn write, signal) against an undisturbed run"
    rule = ("A case is a random local tree that is initialised, or a random remote directory to which a client is added, with "
            "3-6 interruptions at random operations, each followed by a sync that must be refused and by another init (sometimes "
            "killed as well) or a reset; each interruption counts as one evaluation. Non-trivial: the undisturbed init changes "
            "something.")
    tags = {"content-lost", "recover", "result", "records", "refuse", "cancel"}
    quick = 24
    thorough = 700
    cap_quick = 90

    def strategy(self, tier, shard):
        @st.composite
        def s(draw):
            exclude = shard % 2 == 1
            plan = draw(gen.init_only(exclude=exclude))
            S = plan["steps"]
            plan["victim"] = S.pop()
            plan["at"] = many(draw, self.at(), self.points if tier == "quick" else (6, 12))
            return plan
        return s()

    def ready(self, h, i):
        return all(c.up for c in h.w.clients[:i]) and (i == 0 or os.path.isdir(h.w.R + "/.zielen"))

    def valid(self, plan):
        i = plan["victim"][1]
        return [s[1] for s in plan["steps"] if s[0] == "init"] == list(range(i))

    def reference(self, h, i, plan):
        w = h.w
        c = w.clients[i]
        before = self.before
        res = w.init(i, inject={"mode": 0})
        if res.get("rc") != 0:
            h.bad("rc", "init failed")
            return None
        h.reg[i] = list(c.patterns)
        h.after_init(i, before)
        if h.problems:
            return None
        after = State(w)
        self.keep = before.all_digests() & after.all_digests()
        ref = {"ops": res["ops"], "kinds": res.get("kinds"), "after": after, "pres": w.presented(i), "rec": w.records(c),
               "changed": after.L != before.L or after.R != before.R}
        h.sync(i)
        if h.problems:
            return None
        ref["synced"] = State(w)
        ref["pres2"] = w.presented(i)
        ref["rec2"] = w.records(c)
        self.keep &= ref["synced"].all_digests()
        return ref

    may_stay = ()

    def final(self, h, i, who, ref, synced):
        w = h.w
        now = State(w)
        known = self.before.all_digests()
        want, pres = (ref["synced"], ref["pres2"]) if synced else (ref["after"], ref["pres"])
        self.lost(h, who, self.keep, now)
        self.same_tree(h, who, "remote", want.R, now.R, known, "result")
        self.same_tree(h, who, "local", pres, w.presented(i), known, "result")

    def unchanged(self, h, who, a, b, tag):
        for name, x, y in (("local", a.L, b.L), ("remote", a.R, b.R), ("trash", a.T, b.T)):
            if x != y:
                h.bad(tag, who + "the %s directory has changed" % name)

    def point(self, h, i, plan, a, ref, snap):
        w = h.w
        c = w.clients[i]
        run = lambda inj=None: w.init(i, inject=inj)
        res = run(self.inject(a, ref))
        who = "init of client %d with %s at operation %d of %d, " % (i, WHAT[a[1]], self.nth(a, ref), ref["ops"])
        self.lost(h, who + "then ", self.keep, State(w))
        if a[4] == 2:
            self.again(h, i, a, who, run)
        if h.problems:
            return
        s0 = State(w)
        res = w.sync(i)
        s1 = State(w)
        if res.get("rc") == 0:
            # It was complete.
            self.final(h, i, who + "then a sync, ", ref, True)
            return self.same_records(h, c, who + "then a sync, ", ref["rec2"])
        if res.get("rc") != 1:
            h.bad("refuse", who + "then a sync ended with %r: %s" % (res.get("rc"), res.get("err", "")[-500:]))
        self.unchanged(h, who + "then a refused sync: ", s0, s1, "refuse")
        if h.problems:
            return
        if a[4] == 3:
            res = w.run(c, ["reset"] + (["-k"] if i else []) + [c.name])
            who += "then a reset, "
            s2 = State(w)
            if res.get("rc") == 0:
                self.lost(h, who, self.keep, s2)
                if os.path.lexists(c.pdir):
                    h.bad("cancel", who + "the profile is still there")
                for p, e in s2.L[i].items():
                    if e[0] == "l" and (e[1] + "/").startswith(w.R + "/"):
                        h.bad("cancel", who + "%s is still a symlink into the remote directory" % p)
                if i == 0:
                    for p in sorted(set(s2.L[0]) | set(self.before.L[0])):
                        if not eq(s2.L[0].get(p), self.before.L[0].get(p)):
                            h.bad("cancel", who + "local %s was %s, is %s" % (
                                p, show(self.before.L[0].get(p)), show(s2.L[0].get(p))))
                    # Copies may be left in the remote directory; init wants an empty one.
                    if digests(s2.R) - digests(s2.L[0]):
                        h.bad("cancel", who + "content is left only in the remote directory")
                    rmtree(w.R)
                    os.mkdir(w.R)
                else:
                    self.unchanged_remote(h, who, s0, s2)
                    return
            else:
                self.unchanged(h, who + "which failed: ", s1, s2, "cancel")
        if h.problems:
            return
        who += "then another init, "
        if a[4] == 1 and self.begun(w, c):
            # What was given before need not be given again.
            who += "without options, "
            res = w.run(c, ["init", c.name])
            c.up = res.get("rc") == 0
        else:
            res = w.init(i)
        if not self.ok(h, who, res):
            return
        self.final(h, i, who, ref, False)
        self.same_records(h, c, who, ref["rec"])
        if h.problems or not self.ok(h, who + "then a sync ", w.sync(i)):
            return
        self.final(h, i, who + "then a sync, ", ref, True)
        self.same_records(h, c, who + "then a sync, ", ref["rec2"])

    def same_records(self, h, c, who, ref):
        rec = h.w.records(c)
        for k in ("local", "remote"):
            x = {p: v[0] for p, v in ref[k].items()}
            y = {p: v[0] for p, v in rec[k].items()}
            if x != y:
                h.bad("records", who + "the %s records are %s, without the interruption %s" % (
                    k, sorted(y.items()), sorted(x.items())))

    def begun(self, w, c):
        try:
            return w.records(c)["status"] == "partial"
        except ApiError:
            return False

    def unchanged_remote(self, h, who, a, b):
        for p in sorted(set(a.R) | set(b.R)):
            if not eq(a.R.get(p), b.R.get(p)):
                h.bad("cancel", who + "remote %s was %s, is %s" % (p, show(a.R.get(p)), show(b.R.get(p))))


class C19(CrashCheck):
    id = "C19"
    technique = "fault-injection property testing of reset (kill, torn write, signal) against an undisturbed run"
    rule = ("A case is a random history by one or two clients, then a reset with or without options that is interrupted at "
            "3-6 random operations (sometimes again during the repetition, or with a sync in between) and repeated; each "
            "interruption counts as one evaluation. Non-trivial: the undisturbed reset changes something.")
    tags = {"content-lost", "recover", "result", "refuse", "profile"}
    quick = 24
    thorough = 700
    cap_quick = 90
    may_stay = ()

    def strategy(self, tier, shard):
        @st.composite
        def s(draw):
            exclude = shard % 2 == 1
            plan = draw(gen.reset_history(exclude=exclude))
            S = plan["steps"]
            k = [j for j, o in enumerate(S) if o[0] == "reset"][0]
            plan["victim"] = S[k]
            if len(plan["cfg"]) == 1 and draw(st.integers(0, 3)) == 0:
                plan["victim"][2] = draw(st.sampled_from(["k", "n", "kn"]))
            del S[k:]
            plan["at"] = many(draw, self.at(), self.points if tier == "quick" else (6, 12))
            return plan
        return s()

    def reference(self, h, i, plan):
        w = h.w
        c = w.clients[i]
        before = self.before
        res = w.run(c, self.argv(c, plan), inject={"mode": 0})
        h.reset(i, plan["victim"][2], res=res, before=before)
        if h.problems:
            return None
        after = State(w)
        self.keep = (before.all_digests() - digests(before.T)) & after.all_digests()
        if any(a[4] == 1 for a in plan["at"]):
            # A sync in between may overwrite what it would have overwritten anyway, and the reset empties the trash.
            self.snap.restore()
            w.sync(i)
            now = State(w)
            self.keep_sync = self.keep & digests(now.R, *now.L.values())
        return {"ops": res["ops"], "kinds": res.get("kinds"), "after": after, "changed": after.L != before.L or after.R != before.R}

    def argv(self, c, plan):
        o = plan["victim"][2]
        return ["reset"] + (["-k"] if "k" in o else []) + (["-n"] if "n" in o else []) + [c.name]

    def point(self, h, i, plan, a, ref, snap):
        w = h.w
        c = w.clients[i]
        argv = self.argv(c, plan)
        run = lambda inj=None: w.run(c, argv, inject=inj)
        run(self.inject(a, ref))
        who = "%s with %s at operation %d of %d, " % (" ".join(argv[:-1]), WHAT[a[1]], self.nth(a, ref),
                                                      ref["ops"])
        self.lost(h, who + "then ", self.keep, State(w))
        if a[4] == 2:
            self.again(h, i, a, who, run)
        if h.problems:
            return
        if a[4] == 1:
            s0 = State(w)
            res = w.sync(i)
            s1 = State(w)
            who += "then a sync, "
            if res.get("rc") == 0:
                self.lost(h, who, self.keep_sync, s1)
                # The reset had not begun to change anything, or only to prepare it.
            elif s0.L != s1.L or s0.R != s1.R or s0.T != s1.T:
                h.bad("refuse", who + "which was refused but changed something: %s" % res.get("err", "")[-300:])
        if h.problems:
            return
        there = os.path.lexists(c.pdir)
        res = run()
        who += "then another reset, "
        if there:
            if not self.ok(h, who, res):
                return
        elif res.get("rc") != 1:
            h.bad("profile", who + "ended with %r although the profile was gone" % res.get("rc"))
        if os.path.lexists(c.pdir):
            h.bad("profile", who + "the profile is still there")
        now = State(w)
        self.lost(h, who, self.keep_sync if a[4] == 1 else self.keep, now)
        if a[4] == 1:
            return
        known = self.before.all_digests() | ref["after"].all_digests()
        # A conflict copy of a local edit that was made before the kill is a file like any other, which stays where it is.
        self.same_tree(h, who, "remote", ref["after"].R, now.R, known, "result", now.L[i])
        self.same_tree(h, who, "local", ref["after"].L[i], now.L[i], known, "result")
        for k in w.clients:
            if k.up and k.i != i and not h.problems:
                self.ok(h, who + "then a sync of client %d " % k.i, w.sync(k.i))


CHECKS = {c.id: c() for c in (C14, C16, C19, C31)}
