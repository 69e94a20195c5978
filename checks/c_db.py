"""The file records: both databases against a plain dictionary of paths, also with colliding hashes."""
import os

from hypothesis import strategies as st

import gen
import hist
from check import Check, Result
from gen import many
from model import parents
from world import rmtree

NAMES = ["a", "ab", "a.b", "a b", "b", "é", "%", "_", "'q", "B"]


@st.composite
def dbpath(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
    return "/".join(draw(st.sampled_from(NAMES[:4] if k < n - 1 else NAMES)) for k in range(n))


def isunder(p, root):
    return p == root or p.startswith(root + "/")


@st.composite
def ops(draw, kind, nops=(4, 18), bulk=False):
    P = draw(st.lists(dbpath(), min_size=3, max_size=10, unique=True))
    # the paths around the drawn ones, so that most operations meet something
    pool = sorted({"/".join(p.split("/")[:k + 1]) for p in P for k in range(len(p.split("/")))})
    path = st.one_of(st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(pool), dbpath())
    some = st.lists(path, min_size=1, max_size=6, unique=True)
    form = st.sampled_from(["list", "list", "set", "gen", "tuple"])
    prio = st.sampled_from([0, 1, 2, 3.5, 10, 0.125])
    flag = st.booleans()
    opt = st.sampled_from([None, None, True, False])
    when = st.sampled_from([0.0, 50.5, 100.0, 1e9 + 0.25, 4e9])
    tree = st.tuples(st.lists(path, min_size=1, max_size=8, unique=True), st.lists(st.booleans(), min_size=8, max_size=8))

    def add(t):
        return {"files": [p for p, d in zip(t[0], t[1]) if not d], "dirs": [p for p, d in zip(t[0], t[1]) if d]}
    L = []
    addop = st.tuples(tree, st.fixed_dictionaries({"priority": prio, "local": flag}), form, flag).map(
        lambda t: dict(add(t[0]), op="add", kw=t[1] if t[3] else {}, form=t[2]))
    one = [addop, addop, addop,
           st.tuples(some, form).map(lambda t: {"op": "rm", "paths": t[0], "form": t[1]}),
           path.map(lambda p: {"op": "info", "path": p}),
           st.just({"op": "commit"}), st.just({"op": "reopen"})]
    if kind == "local":
        kw = st.one_of(st.fixed_dictionaries({"priority": prio}), st.fixed_dictionaries({"local": flag}),
                       st.fixed_dictionaries({"local": flag, "priority": prio}))
        one += [st.tuples(tree, form).map(lambda t: dict(add(t[0]), op="infl", form=t[1])),
                st.tuples(some, kw, form).map(lambda t: {"op": "upd", "paths": t[0], "kw": t[1], "form": t[2]}),
                st.tuples(path, flag, form).map(lambda t: {"op": "updtree", "path": t[0], "kw": {"local": t[1]},
                                                             "form": t[2]}),
                st.tuples(some, st.sampled_from([1, 2, 0.5]), form).map(
                    lambda t: {"op": "inc", "paths": t[0], "n": t[1], "form": t[2]}),
                st.sampled_from([0.5, 0.9, 1, 2]).map(lambda n: {"op": "adj", "n": n}),
                st.tuples(st.one_of(st.none(), path), opt, opt).map(
                    lambda t: {"op": "paths", "kw": {"root": t[0], "directory": t[1], "local": t[2]}})]
    else:
        one += [st.tuples(some, st.fixed_dictionaries({"lastsync": when}), form).map(
                    lambda t: {"op": "upd", "paths": t[0], "kw": t[1], "form": t[2]}),
                st.tuples(st.one_of(st.none(), path), opt, st.one_of(st.none(), when)).map(
                    lambda t: {"op": "paths", "kw": {"root": t[0], "directory": t[1], "min_lastsync": t[2]}})]
    # A first addition with the ancestors, so that there is something.
    first = [p for p in pool if draw(st.integers(0, 3))]
    L.append({"op": "add", "files": [p for p in first if not any(q != p and isunder(q, p) for q in pool)],
              "dirs": [p for p in first if any(q != p and isunder(q, p) for q in pool)], "kw": {}, "form": "list"})
    L += many(draw, st.one_of(one), nops)
    if bulk and draw(st.integers(0, 19)) == 7:
        # Many entries at once.
        n = draw(st.sampled_from([60, 130, 260, 520]))
        root = draw(st.sampled_from(["z", "a", L[0]["dirs"][0] if L[0]["dirs"] else "z"]))
        L = L[:10]
        L.insert(1, {"op": "add", "files": [], "dirs": [root], "bulk": [root, n], "kw": {}, "form": "list"})
        for x in many(draw, st.sampled_from(["rm", "inc", "upd", "paths", "reopen", "commit"]), (1, 4)):
            if x in ("rm", "inc", "upd") and not (x == "inc" and kind == "remote"):
                op = {"op": x, "paths": [], "bulk": [root, draw(st.integers(0, n))], "form": "list"}
                if x == "inc":
                    op["n"] = 2
                elif x == "upd":
                    op["kw"] = {"local": False, "priority": 3} if kind == "local" else {"lastsync": 50.5}
                L.insert(draw(st.integers(2, len(L))), op)
            elif x == "paths":
                L.append({"op": x, "kw": {"root": draw(st.sampled_from([None, root])), "directory": draw(opt),
                                          **({"local": draw(opt)} if kind == "local" else {"min_lastsync": draw(
                                              st.one_of(st.none(), when))})}})
            elif x in ("reopen", "commit"):
                L.append({"op": x})
    return L


def children(d):
    kids = {}
    for p in d:
        kids.setdefault(os.path.dirname(p), []).append(p)
    return kids


class Tree:
    """The model: path -> {dir, prio, local, sync}; None means unspecified."""

    def __init__(self):
        self.d = {}
        self.saved = {}

    def kids(self, p):
        n = p.count("/") + 1
        return [q for q in self.d if q.startswith(p + "/") and q.count("/") == n]

    def copy(self):
        return {k: dict(v) for k, v in self.d.items()}

    def add(self, files, dirs, prio, local, sync):
        new = sorted(set(files) | set(dirs), key=lambda p: p.count("/"))
        new = [p for p in new if p not in self.d]
        for p in new:
            self.d[p] = {"dir": p in dirs, "prio": prio, "local": local, "sync": sync}
        for p in set(files) | set(dirs):
            if "/" in p:
                self.d[os.path.dirname(p)]["dir"] = True

    def rm(self, paths):
        hit = set()
        for p in paths:
            if p in self.d:
                for q in [q for q in self.d if isunder(q, p)]:
                    hit.add(q)
        for q in hit:
            del self.d[q]
        for q in hit:
            up = os.path.dirname(q)
            if up in self.d and not self.kids(up):
                self.d[up]["prio"] = self.d[up]["local"] = None
        return len(hit)

    def derive(self):
        """Fill in what directories with content get from their direct entries."""
        kids = children(self.d)
        for p in sorted(self.d, key=lambda p: -p.count("/")):
            k = kids.get(p)
            if k:
                pr = [self.d[q]["prio"] for q in k]
                lo = [self.d[q]["local"] for q in k]
                self.d[p]["prio"] = None if None in pr else sum(pr)
                self.d[p]["local"] = False if False in lo else (None if None in lo else True)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12


class DbCheck(Check):
    lists = ["ops"]
    patch = None
    quick = 250
    thorough = 6000

    def strategy(self, tier, shard):
        kinds = ["local", "remote"]
        return st.sampled_from(kinds).flatmap(lambda k: ops(k, bulk=True).map(lambda o: {"kind": k, "ops": o}))

    def run(self, ctx, plan):
        kind = plan["kind"]
        ctx.ncase += 1
        d = "%s/db%d" % (ctx.scratch, ctx.ncase % 1000)
        rmtree(d)
        os.makedirs(d)
        try:
            return self._run(ctx, plan, kind, d)
        finally:
            rmtree(d)

    def _run(self, ctx, plan, kind, d):
        m = Tree()
        todo, states, stats = [], [], {"ops": 0, "removed": 0, "derived": 0, "reopened": 0, "nodes": 0, "bulk": 0}
        for op in plan["ops"]:
            op = dict(op)
            k = op["op"]
            if "bulk" in op:
                root, n = op.pop("bulk")
                key = "files" if k == "add" else "paths"
                op[key] = list(op[key]) + ["%s/f%03d" % (root, j) for j in range(n)]
                stats["bulk"] += 1
            if k in ("add", "infl"):
                have = set(m.d)
                ok = []
                for p in sorted(set(op["files"]) | set(op["dirs"]), key=lambda p: p.count("/")):
                    if "/" not in p or os.path.dirname(p) in have:
                        have.add(p)
                        ok.append(p)
                op["files"] = [p for p in op["files"] if p in ok]
                op["dirs"] = [p for p in op["dirs"] if p in ok]
                kw = op.get("kw") or {}
                prio, local = kw.get("priority", 0), kw.get("local", True)
                if k == "infl":
                    pr = [v["prio"] for v in m.d.values() if not v["dir"]]
                    prio, local = (None if None in pr else max(pr or [0])), True
                m.add(op["files"], op["dirs"], prio, local, "now%d" % len(todo))
            elif k == "rm":
                stats["removed"] += m.rm(op["paths"])
            elif k in ("upd", "inc"):
                op["paths"] = [p for p in op["paths"] if p not in m.d or not m.kids(p)]
                if k == "inc":
                    op["paths"] = [p for p in op["paths"] if p not in m.d or not m.d[p]["dir"]]
                for p in op["paths"]:
                    if p in m.d:
                        v = m.d[p]
                        if k == "inc":
                            v["prio"] = None if v["prio"] is None else v["prio"] + op["n"]
                        for a, b in (("priority", "prio"), ("local", "local"), ("lastsync", "sync")):
                            if k == "upd" and a in op["kw"]:
                                v[b] = op["kw"][a]
            elif k == "updtree":
                op["op"] = "upd"
                op["paths"] = [p for p in m.d if isunder(p, op["path"])]
                for p in op["paths"]:
                    m.d[p]["local"] = op["kw"]["local"]
            elif k == "adj":
                for v in m.d.values():
                    v["prio"] = None if v["prio"] is None else v["prio"] * op["n"]
            elif k == "commit":
                m.saved = m.copy()
            elif k == "reopen":
                m.d = {p: dict(v) for p, v in m.saved.items()}
                stats["reopened"] += 1
            if kind == "local":
                if k in ("rm", "upd", "inc"):
                    # What is recorded for directories without content is left open.
                    for p in op["paths"]:
                        for q in parents(p):
                            if q in m.d and m.d[q]["dir"] and not m.kids(q):
                                m.d[q]["prio"] = m.d[q]["local"] = None
                m.derive()
            todo.append(op)
            states.append(m.copy())
        stats["ops"] = len(todo)
        stats["nodes"] = max(len(s) for s in states)
        res = ctx.z.call(op="api", fn="db_ops", args=[kind, d + "/x.db", todo], env={"HOME": d}, cwd=d,
                         patch=plan.get("patch"), timeout=30)
        problems = []
        if res.get("timeout"):
            problems.append(("records", "the operations did not finish within 30 s"))
        elif "value" not in res:
            problems.append(("records", "the operations failed: " + (res.get("err") or str(res))[-900:]))
        else:
            self.compare(kind, todo, states, res["value"], problems, stats)
        stats["changes"] = sum(a != b for a, b in zip(states, states[1:]))
        nt = stats["nodes"] >= 5 and stats["changes"] >= 3
        return Result(problems, nt, stats)

    def compare(self, kind, todo, states, values, problems, stats):
        times = {}
        known = {}          # values of entries that the model leaves open, as observed

        def same_sync(want, got):
            if isinstance(want, str):
                t0, t1 = times[int(want[3:])]
                return t0 - 1e-3 <= got <= t1 + 1e-3
            return want == got

        def entry_ok(p, v, got, what):
            """got: [directory, priority, local] or [directory, lastsync]"""
            if bool(got[0]) != v["dir"]:
                problems.append(("records", "%s: %s is recorded as a %s" % (
                    what, p, "directory" if got[0] else "file")))
            if kind == "remote":
                if not same_sync(v["sync"], got[1]):
                    problems.append(("records", "%s: %s has sync time %r, expected %r" % (what, p, got[1], v["sync"])))
                return
            if v["prio"] is not None and not close(v["prio"], got[1]):
                problems.append(("derived" if v["dir"] else "records", "%s: %s has priority %r, expected %r" % (
                    what, p, got[1], v["prio"])))
            if v["local"] is not None and bool(got[2]) != v["local"]:
                problems.append(("derived" if v["dir"] else "records", "%s: %s has the local flag %r" % (
                    what, p, got[2])))
        for k, (op, s, (r, dump)) in enumerate(zip(todo, states, values)):
            what = "operation %d (%s)" % (k, op["op"])
            if op["op"] == "add":
                times[k] = r
            if set(dump) != set(s):
                problems.append(("records", "%s: the records have %s too many and lack %s" % (
                    what, sorted(set(dump) - set(s)), sorted(set(s) - set(dump)))))
                return
            under = children(dump)
            for p in sorted(s):
                entry_ok(p, s[p], dump[p], what)
                if kind == "local":
                    kids = under.get(p)
                    if kids:
                        stats["derived"] += 1
                        if not close(dump[p][1], sum(dump[q][1] for q in kids)):
                            problems.append(("derived", "%s: directory %s has priority %r, its entries %s" % (
                                what, p, dump[p][1], {q: dump[q][1] for q in kids})))
                        if bool(dump[p][2]) != all(dump[q][2] for q in kids):
                            problems.append(("derived", "%s: directory %s has the local flag %r, its entries %s" % (
                                what, p, dump[p][2], {q: dump[q][2] for q in kids})))
            if op["op"] == "info":
                if (r is None) != (op["path"] not in s):
                    problems.append(("records", "%s: information on %s is %r" % (what, op["path"], r)))
                elif r is not None and r != dump[op["path"]]:
                    problems.append(("records", "%s: information on %s is %r, the records have %r" % (
                        what, op["path"], r, dump[op["path"]])))
            if op["op"] == "paths":
                kw = op["kw"]
                want = {p for p in dump if (not kw["root"] or (kw["root"] in dump and isunder(p, kw["root"])))
                        and (kw["directory"] is None or bool(dump[p][0]) == kw["directory"])
                        and (kw.get("local") is None or bool(dump[p][2]) == kw["local"])
                        and (kw.get("min_lastsync") is None or dump[p][1] > kw["min_lastsync"])}
                if set(r) != want or any(r[p] != dump[p] for p in want):
                    problems.append(("records", "%s with %s returned %s, expected %s" % (
                        what, kw, r, {p: dump[p] for p in sorted(want)})))
            if problems:
                return


class C22(DbCheck):
    id = "C22"
    technique = "stateful model-based testing of both databases against a dictionary of paths"
    rule = ("A case is a random sequence of additions, updates, removals, queries, commits and reopenings on one of the two "
            "databases; after each operation all records are compared with a dictionary. Non-trivial: at least five "
            "entries existed and three operations after the first one changed something.")
    tags = {"records"}


class C23(DbCheck):
    id = "C23"
    technique = "stateful model-based testing of the profile database with the sums as an invariant"
    rule = ("A case is a random sequence of additions, removals, increments, updates, decays, commits and reopenings on the "
            "profile database; after each operation the priority and the flag of each directory with content are "
            "compared with those of its direct entries and with a model. Non-trivial: as for C22.")
    tags = {"derived"}

    def strategy(self, tier, shard):
        return ops("local", (6, 22), True).map(lambda o: {"kind": "local", "ops": o})


class C24(DbCheck):
    id = "C24"
    technique = "model-based testing of databases and whole histories with hash collisions forced"
    rule = ("A case is a sequence of database operations, or a history of edits and syncs, run while the hash function has "
            "only 6 to 8 bits or is made equal for chosen pairs of paths, compared with the models that know nothing of "
            "hashes. Non-trivial: at least two of the paths involved collided.")
    lists = ["ops", "steps"]
    tags = None
    quick = 120
    thorough = 2500

    def strategy(self, tier, shard):
        bits = st.fixed_dictionaries({"hash_bits": st.sampled_from([6, 7, 7, 8])})
        if shard % 2:
            h = gen.history(nclients=(1, 2), rounds=(1, 3), exclude=False, last=1)
            return st.tuples(h, bits).map(lambda t: dict(t[0], patch=t[1]))

        def paired(t):
            k, o, i, j, b = t
            pool = sorted({p for x in o for p in x.get("files", []) + x.get("dirs", []) + x.get("paths", [])})
            pairs = {}
            for a, c in zip(i, j) if pool else ():
                p, q = pool[a % len(pool)], pool[c % len(pool)]
                if p != q and q not in pairs and p not in pairs.values():
                    pairs[p] = q
            return {"kind": k, "ops": o, "patch": {"hash_bits": 0, "hash_table": pairs} if b else {"hash_bits": 6}}
        num = st.lists(st.integers(0, 60), min_size=3, max_size=3)
        return st.sampled_from(["local", "remote"]).flatmap(
            lambda k: st.tuples(st.just(k), ops(k), num, num, st.sampled_from([True, True, False]))).map(paired)

    def run(self, ctx, plan):
        if "ops" in plan:
            r = DbCheck.run(self, ctx, plan)
            r.nontrivial = r.stats["nodes"] >= 4
            return r
        for c in plan["cfg"]:
            c["patch"] = plan["patch"]
        h = hist.History(ctx, plan)
        try:
            for op in plan["steps"]:
                h.step(op)
                if h.problems:
                    break
            return Result(h.problems, h.stats["syncs"] >= 2 and h.stats["edits"] >= 5, h.stats, h.w.log)
        finally:
            h.close()


CHECKS = {c.id: c() for c in (C22, C23, C24)}
