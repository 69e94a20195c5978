"""The daemon: priorities from accesses and time, and the syncs that it starts, in virtual time."""
import json
import os
import signal
import socket
import sqlite3
import time

from hypothesis import strategies as st

import gen
import hist
from check import Check, Result
from gen import many
from hist import show
from world import CONFLICT

ADJUST, COOLDOWN = 600, 1      # seconds
SLACK = 40                      # openings that a sync may make of one file
DEBUG = False


class Stopped(Exception):
    pass


class Dead(Exception):
    pass


class Blocked(Exception):
    pass


class Daemon:
    """The daemon of one client, that is told when to go on, and what time it is."""

    def __init__(self, h, c, now, limit=0.02):
        self.h, self.c = h, c
        w = h.w
        path = w.root + "/d.sock"
        if os.path.lexists(path):
            os.unlink(path)
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(path)
        srv.listen(1)
        srv.settimeout(30)
        self.calls = []
        self.buf = b""
        self.pid = w.z.call(op="start", fn="daemon", args=[c.name, path, now, limit], env=w.env(c), cwd=w.root,
                            patch=dict(c.cfg.get("patch") or {}), kind="api")["pid"]
        self.sock = None
        try:
            self.sock, _ = srv.accept()
        except socket.timeout:
            self.end()
            raise Dead("did not start")
        finally:
            srv.close()
        try:
            self.state()
        except Dead:
            raise Dead("ended at once: " + self.end()[-1500:])

    def state(self, timeout=150, patience=None):
        """The next message from it."""
        begun = time.monotonic()
        self.sock.settimeout(0.2)
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            try:
                b = self.sock.recv(65536)
            except socket.timeout:
                if self.h.w.z.call(op="stopped", pid=self.pid, timeout=0.01).get("value"):
                    raise Stopped()
                if patience and time.monotonic() > begun + patience:
                    raise Blocked()
                if time.monotonic() > end:
                    raise Dead("no answer within %d s" % timeout)
                continue
            except OSError:
                b = b""
            if not b:
                raise Dead("ended")
            self.buf += b
        line, _, self.buf = self.buf.partition(b"\n")
        m = json.loads(line)
        self.calls += m["calls"]
        if "sleep" in m:
            self.wake = m["now"] + m["sleep"]
        self.now = m["now"]
        self.workers = m["workers"]
        return m

    def tell(self, **kw):
        self.sock.sendall((json.dumps(kw) + "\n").encode())

    def do(self, **kw):
        self.tell(**kw)
        self.state()

    def time(self, t):
        if t > self.now:
            self.do(op="time", now=t)

    def go(self, patience=None):
        """One round of its main loop."""
        self.time(self.wake)
        self.tell(op="go")
        self.state(patience=patience)

    def end(self):
        """Kill it. What it said."""
        if self.pid is None:
            return ""
        pid, self.pid = self.pid, None
        if self.sock:
            self.sock.close()
        for s in (signal.SIGCONT, signal.SIGKILL):
            try:
                os.kill(pid, s)
            except ProcessLookupError:
                pass
        return self.h.w.z.call(op="wait", pid=pid, timeout=30).get("err", "")


class Life:
    """A client with a daemon, and what the priorities should be."""

    def __init__(self, h, i, plan):
        self.h, self.w, self.c = h, h.w, h.w.clients[i]
        self.plan = plan
        self.d = None
        self.hold = None
        self.counted = {}           # path: time of the last opening that counts
        self.pending = {}           # openings that have not arrived in the database
        self.vague = False          # openings that nobody counted happened
        self.shaken = False         # files were changed since the last sync, that may begin anew
        self.fresh = False
        self.todo = None            # a command that it started and that is still to be carried out
        self.real = False           # carry out the syncs that the daemon starts
        self.takes = 0
        h.stats.update(opens=0, adjusts=0, ticks=0, holds=0, syncs=0, mid=0, cool=0, restarts=0, calls=0)

    # Time. The clock of the commands is that of the daemon.
    def now(self):
        return self.d.now if self.d else self.w.time_ns() / 1e9

    def clock(self):
        self.w.clock = int(self.now() * 1e9) - time.time_ns()
        self.w.last_ns = max(self.w.last_ns, 0)

    def records(self):
        return self.w.api(self.c, "daemon_records", self.c.name)

    def start(self, now):
        self.d = Daemon(self.h, self.c, now)
        self.running, self.longest = False, [0]
        self.intervals = [self.c.cfg["interval"] * 60]
        self.takes = 0
        self.rounds = 0
        r = self.records()
        self.prio = {p: v[1] for p, v in r["local"].items() if not v[0]}
        self.dirs = {p: v[1] for p, v in r["local"].items() if v[0]}
        self.adjusted = r["last_adjust"]
        self.synced = self.attempt = r["last_sync"]
        self.counted = {}
        self.pending = {}
        self.vague = False

    def stop(self):
        if self.hold:
            self.hold.close()
            self.hold = None
        if self.d:
            return self.d.end()

    # What the plan says
    def factor(self, n=1):
        return 0.5 ** (ADJUST * n / (self.c.cfg["half_life"] * 3600))

    def open(self, full):
        """Somebody opens a file."""
        real = os.path.realpath(full)
        rel = None
        for root in (self.c.L, self.w.R):
            root = os.path.realpath(root)
            if real.startswith(root + "/"):
                rel = real[len(root) + 1:]
        try:
            fd = os.open(full, os.O_RDONLY | os.O_NONBLOCK)
        except OSError:
            return
        isdir = os.path.isdir(real)
        os.close(fd)
        self.d.do(op="drain", dirs=[self.c.L, self.w.R])
        self.h.stats["opens"] += 1
        if rel is None or isdir or rel not in self.prio:
            return
        t = self.d.now
        last = self.counted.get(rel)
        if last is not None and abs(t - last - COOLDOWN) < 1e-3:
            self.vague = True       # at the boundary
            return
        if last is not None and t < last + COOLDOWN:
            self.h.stats["cool"] += 1
            return
        self.counted[rel] = t
        self.pending[rel] = self.pending.get(rel, 0) + 1

    def pick(self, k, side):
        names = sorted(self.prio)
        if side == "d":
            names = sorted(self.dirs)
        if not names:
            return None
        return (self.c.L if side in "Ld" else self.w.R) + "/" + names[k % len(names)]

    def tick(self):
        """One round of the daemon; after it everything has to be in the database."""
        t0 = max(self.d.wake, self.d.now)
        due = t0 - (self.adjusted + ADJUST)
        if abs(due) < 1e-3:
            self.d.time(t0 + 0.01)
            return self.tick()
        self.d.go()
        self.h.stats["ticks"] += 1
        self.syncs()
        if self.hold:
            if due > 0 and self.kind == "shared" and abs(self.records()["last_adjust"] - t0) < 1e-3:
                self.settled(True, t0)      # there was nothing to write
            return
        self.settled(due > 0, t0)
        self.rounds += 1
        if self.rounds > 1:
            self.intervals = self.intervals[-1:]
        if self.todo:
            todo, self.todo = self.todo, None
            self.clock()
            before = self.now()
            self.after_sync(self.w.run(self.c, todo), before)
            self.real = False
            self.tick()
            self.real = True

    def settled(self, due, t):
        """Compare the database with what should be in it."""
        try:
            self.lock("EXCLUSIVE").close()
        except sqlite3.OperationalError as e:
            self.h.bad("blocked", "the daemon sleeps, but keeps the database: %s" % e)
        if due:
            self.h.stats["adjusts"] += 1
            self.adjusted = t
        k = self.factor() if due else 1
        r = self.records()
        got = {p: v[1] for p, v in r["local"].items() if not v[0]}
        if self.vague:
            # A sync, or edits: files come and go, and were opened.
            for p in set(got) & set(self.prio) if not self.shaken else ():
                lo = self.prio[p] * k
                if not lo * (1 - 1e-9) <= got[p] <= lo + self.pending.get(p, 0) + SLACK:
                    self.h.bad("priority", "the priority of %s is %r; it was %r, and %s" % (
                        p, got[p], self.prio[p], "was to be multiplied once by %r" % k if due else "no change is due"))
            self.vague = False
            self.shaken = self.shaken and not self.fresh
            self.d.time(self.d.now + 1.1 * COOLDOWN)
        else:
            for p in sorted(set(got) | set(self.prio)):
                if p not in got or p not in self.prio:
                    self.h.bad("priority", "%s %s" % (p, "is tracked now" if p in got else "is not tracked any more"))
                    continue
                n = self.pending.get(p, 0)
                want = [(self.prio[p] + i) * k + n - i for i in range(n + 1)]
                if not any(abs(got[p] - x) <= 1e-9 * max(1, abs(x)) for x in want):
                    self.h.bad("priority", "the priority of %s is %r instead of %r; it was %r, %d openings count, %s" % (
                        p, got[p], want[0], self.prio[p], n,
                        "it was to be multiplied by %r" % k if due else "no adjustment is due"))
        for p, v in r["local"].items():
            if v[0]:
                s = sum(x[1] for q, x in r["local"].items() if q.startswith(p + "/") and not any(
                    y.startswith(q + "/") for y in r["local"]))
                kids = any(q.startswith(p + "/") for q in r["local"])
                if kids and abs(s - v[1]) > 1e-6 * max(1, abs(s)):
                    self.h.bad("directory", "the priority of %s is %r, but its files have %r" % (p, v[1], s))
        if abs(r["last_adjust"] - self.adjusted) > 1e-5:
            self.h.bad("adjusted", "the recorded time of the last adjustment is %.3f, it was at %.3f (now %.3f)" % (
                r["last_adjust"], self.adjusted, self.d.now))
        if abs(r["last_sync"] - self.synced) > 1e-5:
            self.h.bad("reset", "the recorded time of the last sync is %.3f, it was at %.3f (now %.3f)" % (
                r["last_sync"], self.synced, self.d.now))
        if r["status"] != "initialized":
            self.h.bad("reset", "the recorded status is %s" % r["status"])
        self.prio = got
        self.dirs = {p: v[1] for p, v in r["local"].items() if v[0]}
        self.pending = {p: n for p, n in self.pending.items() if p not in got and False}

    def syncs(self):
        """Syncs that the daemon started."""
        calls, self.d.calls = self.d.calls, []
        for t, args in calls:
            if args is None:
                self.attempt, self.running = t, False
                if self.takes:
                    self.h.stats["failures"] = self.h.stats.get("failures", 0) + 1
                continue
            self.h.stats["calls"] += 1
            if args[0] != "zielen" or args[-2:] != ["sync", self.c.name]:
                self.h.bad("sync", "the daemon ran %s" % args)
            if t < self.attempt + min(self.intervals) - 1e-3 or self.running:
                self.h.bad("sync", "the daemon started a sync %.1f s after the last one ended; the interval is %s s" % (
                    t - self.attempt, self.intervals))
            self.attempt, self.running, self.lasts = t, True, max(self.longest)
            self.longest = [self.takes]
            if self.real and not self.takes:
                self.todo = args[1:]
        if self.running and self.d.now > self.attempt + self.lasts + 3.1:
            self.h.bad("late", "a sync that takes %s s has not ended after %.1f s" % (
                self.lasts, self.d.now - self.attempt))
        if not self.running and self.d.now > self.attempt + max(self.intervals) + 3.1:
            self.h.bad("late", "the daemon did not start a sync, %.1f s after the last one; the interval is %s s" % (
                self.d.now - self.attempt, self.intervals))

    def sync(self):
        self.clock()
        t0 = self.now()
        res = self.w.run(self.c, ["sync", self.c.name])
        self.h.stats["syncs"] += 1
        self.after_sync(res, t0)

    def after_sync(self, res, t0):
        self.vague = self.fresh = True
        if res.get("rc") != 0:
            self.h.bad("rc", "a sync while the daemon runs failed: %s" % (res.get("err") or res))
            return
        r = self.records()
        if r["last_sync"] < t0 - 1:
            self.h.bad("reset", "after a sync at %.3f the recorded time of the last sync is %.3f" % (t0, r["last_sync"]))
        self.synced = r["last_sync"]
        self.d.time(self.synced + 0.01)
        self.d.do(op="drain", dirs=[self.c.L, self.w.R])

    # Steps
    def step(self, op):
        k = op[0]
        h, w, c, d = self.h, self.w, self.c, self.d
        if k == "open":
            d.time(d.now + op[3])
            p = self.pick(op[1], op[2])
            if p and os.path.exists(p):
                self.open(p)
        elif k == "burst":
            self.burst(op[1], op[2])
        elif k == "other":
            p = (c.L if op[1] == "L" else w.R) + "/untracked%d" % (op[2] % 3)
            self.clock()
            if not os.path.lexists(p):
                w.put(p, b"x", 0o644, w.now())
            self.open(p)
        elif k == "tick":
            d.time(d.now + op[1])
            self.tick()
        elif k == "wait":
            t = self.attempt + op[1] * self.intervals[-1] + op[2]
            d.time(t)
            self.tick()
        elif k == "lock":
            if self.hold or self.vague:
                return
            self.hold, self.kind = self.lock(op[1]), op[1]
            h.stats["holds"] += 1
        elif k == "unlock":
            self.unlock()
        elif k == "takes":
            # Syncs take that long from now on, and fail.
            self.takes = op[1]
            self.longest.append(op[1])
            d.do(op="takes", value=op[1], says=op[2] if len(op) > 2 else 0)
        elif k == "sync":
            self.unlock()
            self.sync()
            self.tick()
        elif k == "edit":
            self.unlock()
            self.clock()
            for e in op[1]:
                h.step(e)
            d.do(op="drain", dirs=[c.L, w.R])
            self.vague = self.shaken = True
            self.fresh = False
            self.tick()
        elif k == "midsync":
            self.unlock()
            self.midsync(op[1], op[2])
        elif k == "midwrite":
            self.unlock()
            self.midwrite(op[1], op[2])
        elif k == "restart":
            self.unlock()
            self.tick()
            d.end()
            self.start(d.now + op[1])
            h.stats["restarts"] += 1
            self.tick()
        elif k == "config":
            c.cfg["half_life"], c.cfg["interval"] = op[1], op[2]
            self.intervals.append(op[2] * 60)
            h.stats["configs"] = h.stats.get("configs", 0) + 1
            self.rounds = 0
            with open(c.pdir + "/config") as f:
                lines = f.read().split("\n")
            lines = [x for x in lines if not x.startswith(("PriorityHalfLife", "SyncInterval"))]
            with open(c.pdir + "/config", "w") as f:
                f.write("\n".join(lines + ["PriorityHalfLife=%d" % op[1], "SyncInterval=%d" % op[2], ""]))
            self.unlock()
            self.tick()
        else:
            raise AssertionError(op)

    def burst(self, n, k):
        """More openings than the system can remember."""
        if self.hold:
            return
        names = sorted(p for p in self.prio if os.path.isfile(self.w.R + "/" + p))
        if not names:
            return
        a = self.w.R + "/" + names[k % len(names)]
        b = next(x for x in (self.w.R + "/burst%d" % j for j in range(99)) if not os.path.lexists(x))
        self.clock()
        self.w.put(b, b"x", 0o644, self.w.now())
        for _ in range(n // 2):
            os.close(os.open(a, os.O_RDONLY))
            os.close(os.open(b, os.O_RDONLY))
        self.h.stats["bursts"] = self.h.stats.get("bursts", 0) + 1
        time.sleep(0.5)
        self.open(a)

    def lock(self, kind):
        db = sqlite3.connect(self.c.pdir + "/local.db", isolation_level=None, timeout=1)
        if kind == "shared":
            db.execute("BEGIN")
            db.execute("SELECT * FROM nodes").fetchall()
        else:
            db.execute("BEGIN " + kind)
        return db

    def unlock(self):
        if self.hold:
            self.hold.execute("ROLLBACK")
            self.hold.close()
            self.hold = None
            self.tick()

    def midsync(self, at, inner):
        """The daemon goes on while a sync is stopped at some point."""
        h, w, c, d = self.h, self.w, self.c, self.d
        self.clock()
        t0 = self.now()
        before = dict(self.prio)
        argv = ["sync", c.name]
        pid = w.start(c, argv, inject={"at": at, "mode": 4, "err": 19})
        try:
            if w.z.call(op="stopped", pid=pid, timeout=30).get("value"):
                h.stats["mid"] += 1
                m = 0
                for op in inner:
                    if op[0] == "open":
                        self.step(op)
                        continue
                    d.time(d.now + op[1])
                    at = max(d.wake, d.now)
                    try:
                        d.go(patience=1)
                    except Blocked:
                        # by the lock that the sync has
                        os.kill(pid, signal.SIGCONT)
                        d.state()
                    self.syncs()
                    a = self.free(lambda: self.records()["last_adjust"])
                    if a is not None and abs(a - self.adjusted) > 1e-5:
                        # It was possible to adjust
                        if abs(a - at) > 1e-3 or at < self.adjusted + ADJUST - 1e-3:
                            h.bad("adjusted", "adjusted at %.3f, %.1f s after the last time, at %.3f" % (
                                a, a - self.adjusted, at))
                        self.adjusted = a
                        m += 1
                        h.stats["adjusts"] += 1
                self.prio = {p: v * self.factor(m) for p, v in before.items()}
        finally:
            os.kill(pid, signal.SIGCONT)
        res = w.wait(c, argv, pid)
        self.after_sync(res, t0)
        self.tick()

    def free(self, f):
        """f(), or None if the database is locked."""
        db = sqlite3.connect(self.c.pdir + "/local.db", isolation_level=None, timeout=0.01)
        try:
            db.execute("SELECT count(*) FROM nodes").fetchall()
        except sqlite3.OperationalError:
            return None
        finally:
            db.close()
        return f()

    def midwrite(self, at, dt):
        """A sync runs while the daemon is stopped where it writes its records."""
        h, w, c, d = self.h, self.w, self.c, self.d
        d.time(d.now + dt)
        d.do(op="arm", inject={"prefix": c.pdir + "/info", "at": at, "mode": 4, "err": 19})
        t0 = max(d.wake, d.now)
        due = t0 > self.adjusted + ADJUST
        try:
            d.go()
            self.syncs()
            return self.settled(due, t0)
        except Stopped:
            pass
        h.stats["mid"] += 1
        self.clock()
        argv = ["sync", c.name]
        pid = w.start(c, argv)
        time.sleep(0.3)             # it may have to wait for the daemon
        os.kill(d.pid, signal.SIGCONT)
        d.state()
        res = w.wait(c, argv, pid)
        self.after_sync(res, t0)
        if due:
            self.adjusted = t0
            self.prio = {p: v * self.factor() for p, v in self.prio.items()}
            h.stats["adjusts"] += 1
        self.tick()


KINDS = ["open"] * 4 + ["same"] * 2 + ["tick"] * 5 + ["other", "lock", "lock", "sync", "edit", "edits", "midsync", "midsync",
                                                     "midwrite", "restart", "config"]
SYNCS = ["tick"] * 2 + ["wait"] * 8 + ["open", "lock", "sync", "edit", "midwrite", "midsync", "restart", "restart", "config",
                                        "config", "takes", "takes"]


@st.composite
def life(draw, kinds_=KINDS):
    n = st.integers(0, 40)
    files = draw(gen.history(nclients=(1, 1), rounds=(0, 0), links=False, pre=(4, 12), mv=False))
    cfg = files["cfg"]
    for c in cfg:
        c["half_life"] = draw(st.sampled_from([1, 1, 2, 3, 24, 120]))
        c["interval"] = draw(st.sampled_from([0, 1, 5, 20, 20, 60, 100000]))
        c["limit"] = draw(st.sampled_from(["0KiB", "16KiB", "24KiB", "1GB"]))
        c["cleanup"] = -1
    gap = st.sampled_from([0, 0, 0.21, 0.43, 0.87, 1.13, 2.57])
    dt = st.sampled_from([0, 0, 0, 0.5, 100, 300, 590, 601, 1200.5, 3700, 90000])
    opening = st.tuples(st.just("open"), n, st.sampled_from("LLLRRd"), gap).map(list)
    same = st.tuples(n, st.lists(st.tuples(st.sampled_from("LR"), gap), min_size=2, max_size=5)).map(
        lambda x: [["open", x[0], s, g] for s, g in x[1]])
    tick = st.tuples(st.just("tick"), dt).map(list)
    edits = st.lists(gen.edit(["L0", "R"], links=False, mv=True), min_size=1, max_size=3)
    inner = st.lists(st.one_of(opening, tick, tick), min_size=1, max_size=4)
    kinds = {"open": opening.map(lambda x: [x]), "same": same, "tick": tick.map(lambda x: [x]),
             "other": st.tuples(st.just("other"), st.sampled_from("LR"), n).map(lambda x: [list(x)]),
             "burst": st.tuples(st.just("burst"), st.just(60000), n).map(lambda x: [list(x)]),
             "lock": st.tuples(st.sampled_from(["IMMEDIATE", "EXCLUSIVE", "shared"]),
                               st.lists(st.one_of(opening, tick), min_size=1, max_size=5)).map(
                 lambda x: [["lock", x[0]]] + x[1] + [["unlock"]]),
             "sync": st.just([["sync"]]), "edit": edits.map(lambda x: [["edit", x]]),
             "edits": edits.map(lambda x: [["edit", x], ["sync"]]),
             "midsync": st.tuples(st.just("midsync"), st.integers(1, 40), inner).map(lambda x: [list(x)]),
             "midwrite": st.tuples(st.just("midwrite"), st.integers(1, 4), dt).map(lambda x: [list(x)]),
             "restart": st.tuples(st.just("restart"), dt).map(lambda x: [list(x)]),
             "config": st.tuples(st.just("config"), st.sampled_from([1, 2, 5, 50]),
                                 st.sampled_from([1, 7, 30])).map(lambda x: [list(x)])}
    # Times around a multiple of the interval
    kinds["wait"] = st.tuples(st.just("wait"), st.sampled_from([0.3, 0.9, 1, 1, 1, 1.1, 2, 5]),
                              st.sampled_from([-10, -3.5, -1, -0.5, 0.5, 1, 3.5, 10])).map(lambda x: [list(x)])
    kinds["takes"] = st.tuples(st.just("takes"), st.sampled_from([0, 0, 1, 30, 1000, 100000]), st.sampled_from([0, 0, 1, 2000])).map(lambda x: [list(x)])
    step = st.sampled_from(kinds_).flatmap(kinds.get)
    steps = []
    for x in many(draw, step, (5, 25)):
        steps += x
    if draw(st.integers(0, 30)) == 17:
        steps.insert(draw(st.integers(0, len(steps))), draw(kinds["burst"])[0])
    return {"cfg": cfg, "before": files["steps"], "life": steps, "seed": draw(st.lists(
        st.tuples(n, st.sampled_from([3, 1000, 12345, 10 ** 6])).map(list), max_size=6)),
            "spelling": draw(st.sampled_from(["", "", "/", "//", "/."]))}


class C27(Check):
    id = "C27"
    technique = "model-based stateful property testing of the daemon in virtual time, with locked databases and stopped syncs"
    rule = ("A case is a random history of the daemon of one profile: openings through both directories with generated gaps, "
            "passing time, configuration changes, restarts, edits, syncs, a database that another process has locked, and "
            "syncs and daemon stopped in the middle; after each of its rounds all priorities and recorded times are compared "
            "with a model. Non-trivial: openings counted and priorities were adjusted, and there was a locked database, a "
            "sync or a restart.")
    tags = {"priority", "directory", "adjusted", "reset", "rc", "died", "blocked"}
    lists = ["life", "before", "seed"]
    quick = 40
    more = 1.5
    real = False

    def strategy(self, tier, shard):
        return life()

    def nontrivial(self, s):
        return (s["adjusts"] > 0 and s["opens"] > s["cool"] and
                s["holds"] + s["syncs"] + s["restarts"] + s["mid"] > 0)

    def valid(self, plan):
        return any(x[0] == "init" for x in plan["before"])

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        w = h.w
        c = w.clients[0]
        life = Life(h, 0, plan)
        life.real = self.real
        try:
            if plan.get("spelling"):
                c.cfg["local_spelling"] = c.L + plan["spelling"]
                c.cfg["remote_spelling"] = w.R + plan["spelling"]
            c.cfg["extra"] = ["PriorityHalfLife=%d" % c.cfg["half_life"], "SyncInterval=%d" % c.cfg["interval"]]
            begun = w.time_ns() / 1e9
            for op in plan["before"]:
                h.step(op)
                if h.problems:
                    break
            if h.problems:
                return Result([], False, h.stats, w.log)
            known = sorted(p for p, v in w.records(c)["local"].items() if not v[0])
            if known:
                w.api(c, "bump", c.name, [[n, [known[k % len(known)]]] for k, n in plan["seed"]])
            set_up = life.records()["last_adjust"]
            if not begun - 1 <= set_up <= w.time_ns() / 1e9 + 1:
                h.bad("adjusted", "after init the recorded time of the last adjustment is %.3f, at %.3f" % (
                    set_up, w.time_ns() / 1e9))
            try:
                life.start(w.time_ns() / 1e9)
                for op in plan["life"]:
                    life.step(op)
                    if h.problems:
                        break
                else:
                    life.unlock()
                    life.tick()
            except (Dead, Stopped) as e:
                h.bad("died", "the daemon %s: %s" % (e or "stopped", (life.stop() or "")[-1500:]))
            s = h.stats
            return Result(h.problems, self.nontrivial(s), s, w.log)
        finally:
            x = life.stop()
            if DEBUG:
                print(x)
            h.close()


class C33(C27):
    id = "C33"
    technique = "model-based stateful property testing of the daemon in virtual time, carrying out the syncs that it starts"
    rule = ("A case is a random history of the daemon of one profile in which time passes in steps around multiples of the "
            "interval, the interval is changed, syncs fail and take longer than the interval, the daemon is restarted and the "
            "database locked; each start of a sync is compared with the configured interval, and the command that was started "
            "is carried out. Non-trivial: two syncs were started, and the interval was changed, a sync failed or took "
            "long, the daemon was restarted, or another sync ran.")
    tags = {"sync", "late", "rc", "reset", "died"}
    quick = 40

    def strategy(self, tier, shard):
        return life(SYNCS)

    real = True

    def nontrivial(self, s):
        return s["calls"] > 1 and s["restarts"] + s["syncs"] + s["mid"] + s.get("failures", 0) + s.get("configs", 0) > 0


CHECKS = {c.id: c() for c in (C27, C33)}
