"""Exclude patterns against a reference matcher, observed through init and sync."""
import os

from hypothesis import strategies as st

import model
from check import Check, Result
from gen import many
from world import World, is_unsafe_target, scan

DIRS = ["d", "d2", "D e", ".hd", "d.x", "[d]", "dé"]
FILES = ["a", "ab", "b.txt", "a.txt", ".h", ".a.txt", "[q]*", "a?b", "a]b", "!x", "-n", " s", "é", "#c", "a\\b", "{x}",
         "~", "a.tar.gz", "c"]
ROOTS = ["L0", "L0", "[L]*", "L ?", "..L", ".L", "L[a", "Lé", "a", "d/d", "**", "#L"]
LINKS = ["a", "d", "nowhere", "d2", "d/a", "b.txt"]


@st.composite
def path(draw, names):
    n = draw(st.sampled_from([0, 0, 1, 1, 1, 2, 2, 3]))
    return "/".join([draw(st.sampled_from(DIRS)) for _ in range(n)] + [draw(st.sampled_from(names))])


def escape(name):
    return "".join("[%s]" % c if c in "*?[" else c for c in name)


@st.composite
def component(draw, names):
    name = draw(st.sampled_from(names))
    how = draw(st.integers(0, 13))
    i = draw(st.integers(0, len(name) - 1))
    esc = [("[%s]" % c if c in "*?[" else c) for c in name]
    if how <= 2:
        return "".join(esc)
    if how == 3:
        return "".join(esc[:i]) + "?" + "".join(esc[i + 1:])
    if how == 4:
        return "".join(esc[:i]) + "*"
    if how == 5:
        return "*" + "".join(esc[i:])
    if how == 6:
        return "".join(esc[:i]) + "*" + "".join(esc[i + 1:])
    if how == 7:
        c = name[i]
        if i == 0 and c == ".":
            return "".join(esc)
        body = draw(st.sampled_from([c, c + "z", "z" + c, "a-c", "!" + c, "!a-c", "]" + c, "!]", "*", "?", "[", "#"]))
        if body == "!":
            body = "!z"
        return "".join(esc[:i]) + "[" + body + "]" + "".join(esc[i + 1:])
    if how == 8:
        return name if "/" not in name else "".join(esc)     # meta-characters in it keep their meaning
    return draw(st.sampled_from(["*", "?", "*.txt", "a*", "*.*", ".*", "??", "[!.]*", "*a*", "[ab]*", ".h*"]))


@st.composite
def line(draw):
    k = draw(st.integers(0, 19))
    if k == 0:
        return draw(st.sampled_from(["", "  ", "\t", "#", "# a", "  #a", "\t# *", "#c", "##"]))
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    comps = [draw(component(DIRS)) for _ in range(n - 1)] + [draw(component(FILES + DIRS))]
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        comps.insert(draw(st.integers(0, len(comps))), "**")
    s = "/".join(comps)
    if draw(st.integers(0, 2)) == 0:
        s = "/" + s
    if draw(st.integers(0, 4)) == 0:
        s += "/"
    if draw(st.integers(0, 9)) == 0:
        s = draw(st.sampled_from([" ", "\t", "  "])) + s
    if draw(st.integers(0, 9)) == 0:
        s += draw(st.sampled_from([" ", "\t", "  "]))
    return s


@st.composite
def plans(draw):
    plan = {"root": draw(st.sampled_from(ROOTS)), "files": [], "dirs": [], "links": [], "sets": [],
            "tail": draw(st.booleans())}
    plan["files"] = sorted(set(many(draw, path(FILES), (4, 20))))
    plan["dirs"] = sorted(set(many(draw, path(DIRS), (0, 3))))
    plan["links"] = [list(x) for x in sorted(set(many(draw, st.tuples(path(["l", "l.txt", ".l"]),
                                                                      st.sampled_from(LINKS)), (0, 3))))]
    plan["sets"] = [many(draw, line(), (1, 4)) for _ in range(draw(st.integers(1, 4)))]
    return plan


class C11(Check):
    id = "C11"
    technique = "differential property testing of the pattern matching against a reference matcher"
    rule = ("A case is a random tree with hidden, spaced and bracketed names below a directory whose own name may have "
            "meta-characters, and 1 to 4 random sets of pattern lines; for each the tree is initialised, and the files that "
            "are in the remote directory afterwards are compared with what a reference matcher says. Non-trivial: in one "
            "of the runs something is excluded and something is not.")
    lists = ["sets", "files", "dirs", "links"]
    quick = 130

    def strategy(self, tier, shard):
        return plans()

    def valid(self, plan):
        return bool(plan["sets"])

    def run(self, ctx, plan):
        problems, nt, runs, log = [], False, 0, []
        stats = {"excluded": 0, "included": 0, "open": 0}
        prev = None
        for k, lines in enumerate(plan["sets"]):
            w = World(ctx, [{"dir": plan["root"], "limit": "100MiB"}])
            try:
                tree = self.build(w, plan)
                w.clients[0].patterns = []
                exc = w.root + "/tpl/exclude"
                text = "\n".join(lines) + ("\n" if plan["tail"] else "")
                with open(exc, "w") as f:
                    f.write(text)
                res = w.init(0, args=("-e", exc))
                runs += 1
                self.judge(w, "init", tree, lines, res, problems, stats)
                if prev is not None and not problems:
                    # The same through a change of the exclude file of an existing profile.
                    with open(w.clients[0].pdir + "/exclude", "w") as f:
                        f.write("# x\n" + "\n".join(prev) + ("\n" if plan["tail"] else ""))
                    res = w.sync(0)
                    runs += 1
                    self.judge(w, "sync", tree, prev, res, problems, stats)
                prev = lines
                log += w.log
            finally:
                w.close()
            if problems:
                break
        nt = stats["excluded"] > 0 and stats["included"] > 0
        stats["runs"] = max(1, runs)
        return Result(problems, nt, stats, log)

    def build(self, w, plan):
        L = w.clients[0].L
        os.makedirs(L, exist_ok=True)
        for p in plan["dirs"]:
            if w.ok_parent(L, p):
                os.makedirs(L + "/" + p, exist_ok=True)
        for k, p in enumerate(plan["files"]):
            if w.ok_parent(L, p) and not os.path.isdir(L + "/" + p):
                w.put(L + "/" + p, b"%d" % k, 0o644, w.now())
        for p, t in plan["links"]:
            if w.ok_parent(L, p) and not os.path.lexists(L + "/" + p):
                os.makedirs(os.path.dirname(L + "/" + p), exist_ok=True)
                os.symlink(t, L + "/" + p)
        return scan(L)

    def judge(self, w, what, tree, lines, res, problems, stats):
        if res.get("rc") != 0 or res.get("exc"):
            problems.append(("rc", "%s with patterns %r failed: %s" % (what, lines, (res.get("err") or str(res))[-900:])))
            return
        # Whether a symlink to a directory is a directory to a pattern is left open.
        L = w.clients[0].L
        X = model.excluded(lines, {p: e[0] == "d" for p, e in tree.items()})
        Y = model.excluded(lines, {p: e[0] == "d" or os.path.isdir(L + "/" + p) for p, e in tree.items()})
        R = scan(w.R, skip=(".zielen",))
        for p, e in sorted(tree.items()):
            if (p in X) != (p in Y):
                stats["open"] += 1
                continue
            if e[0] == "l" and is_unsafe_target(p, e[1]):
                continue
            if p in X and p in R and e[0] == "d" and any(q not in X | Y for q in tree if q.startswith(p + "/")):
                continue
            stats["excluded" if p in X else "included"] += 1
            if (p in X) == (p in R):
                problems.append(("pattern", "%s with patterns %r in %r: %s is %s" % (
                    what, lines, os.path.basename(L), p,
                    "in the remote directory though it is excluded" if p in R else "excluded though nothing matches it")))


CHECKS = {c.id: c() for c in (C11,)}
