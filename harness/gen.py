"""Hypothesis strategies for plans."""
from hypothesis import strategies as st
from world import DIRNAMES

DIRS = list(DIRNAMES)
FILES = ["a", "b.txt", "c", "a.txt", "é", "x'y\"", "-n", "[q]*", ".h", "a.tar.gz"]
SIZES = [0, 1, 100, 4095, 4096, 4097, 8192, 12000, 20000]


@st.composite
def dirpath(draw, maxdepth=3):
    n = draw(st.sampled_from([0, 0, 0, 1, 1, 1, 2, 2, 3][:9 if maxdepth >= 3 else 6]))
    return "/".join(draw(st.sampled_from(DIRS[:3] if k else DIRS)) for k in range(n))


@st.composite
def filepath(draw, names=FILES):
    d = draw(dirpath())
    f = draw(st.sampled_from(names))
    return (d + "/" if d else "") + f


def somedir():
    return dirpath().map(lambda d: d or "d")


def anypath():
    return st.one_of(filepath(), filepath(), somedir())


SAFE_TARGETS = ["a", "b.txt", "d/a", "../a", "d", "nowhere", ".", "d/../c", "../d/c", "é", "d2/d/a"]
# With exclude patterns: none that can close a cycle of directories, see the known findings.
ACYCLIC_TARGETS = [t for t in SAFE_TARGETS if t not in (".", "../a")]
UNSAFE_TARGETS = ["/etc/hostname", "@ROOT@/outside/o.txt", "../../outside/o.txt", "../../../../outside",
                  "@ROOT@/outside", "/nonexistent", "@ROOT@/R-old/a", "../R-old", "../L0-old/a", "../../L0.old", "../L1x"]


def edit(sides, links=True, unsafe=False, paths=None, mv=True, existing=True, targets=SAFE_TARGETS):
    """One user edit. A path is spelled out, or a number that stands for an existing entry."""
    s = st.sampled_from(sides)
    fp = paths or filepath()
    xp = st.one_of(st.integers(0, 30), st.integers(0, 30), fp) if existing else fp
    size = st.sampled_from(SIZES)
    w = st.tuples(st.just("w"), s, fp, size, st.integers(0, 3), st.sampled_from(["replace", "replace", "through"]))
    wx = st.tuples(st.just("w"), s, xp, size, st.integers(0, 3), st.sampled_from(["replace", "replace", "through"]))
    ops = [w, w, wx, wx,
           st.tuples(st.just("rm"), s, xp),
           st.tuples(st.just("rm"), s, xp),
           st.tuples(st.just("rm"), s, somedir()),
           st.tuples(st.just("mkdir"), s, somedir()),
           st.tuples(st.just("touch"), s, xp),
           st.tuples(st.just("chmod"), s, xp, st.sampled_from([0o644, 0o600, 0o755, 0o444]))]
    if mv:
        ops.append(st.tuples(st.just("mv"), s, xp, fp))
        ops.append(st.tuples(st.just("mv"), s, somedir(), somedir()))
    if any(x != "R" for x in sides):
        ops.append(st.tuples(st.just("rmph"), st.sampled_from([x for x in sides if x != "R"]), st.integers(0, 20)))
    if links:
        ops.append(st.tuples(st.just("ln"), s, fp, st.sampled_from(targets)))
    if unsafe:
        us = st.sampled_from([x for x in sides if x != "R"])
        ops.append(st.tuples(st.just("ln"), us, st.one_of(fp, xp), st.sampled_from(UNSAFE_TARGETS)))
    return st.one_of(ops).map(list)


LIMITS = ["100MiB", "0KiB", "4KiB", "8KiB", "16KiB", "24KiB", "32KiB", "40KiB", "64KiB", "20KB", "1G"]


@st.composite
def config(draw, exclude=False):
    return {"limit": draw(st.sampled_from(LIMITS)),
            "use_trash": draw(st.sampled_from([None, True, False])),
            "inflate": draw(st.sampled_from([None, True, False])),
            "afs": draw(st.sampled_from([None, True, False])),
            "exclude": draw(patterns()) if exclude else []}


def many(draw, strategy, lohi):
    """Like a list, but with sizes spread evenly over the range instead of mostly small ones."""
    return [draw(strategy) for _ in range(draw(st.integers(*lohi)))]


FEW = ["a", "b.txt", "d/a", "d/c", "d/d2/a.txt", "d2/b.txt"]


def biased(bias, n, sides, unsafe, targets):
    """Compound or single edits of one kind; each element is a list of steps."""
    L = ["L%d" % i for i in range(n)]
    fp = filepath()
    num = st.integers(0, 30)
    size = st.sampled_from(SIZES)
    if bias == "rm":
        one = st.one_of(st.tuples(st.just("rm"), st.sampled_from(sides), num),
                        st.tuples(st.just("rm"), st.sampled_from(sides), somedir()),
                        st.tuples(st.just("rmph"), st.sampled_from(L), num),
                        st.tuples(st.just("rmph"), st.sampled_from(L), num))
        return one.map(lambda o: [list(o)])
    if bias == "conflict":
        few = st.one_of(st.sampled_from(FEW), num)
        w = st.tuples(st.just("w"), st.sampled_from(sides), st.sampled_from(FEW), size, st.integers(0, 3),
                      st.sampled_from(["replace", "through"])).map(lambda o: [list(o)])
        two = st.tuples(st.sampled_from(L), st.sampled_from(FEW), size, size, st.booleans()).map(
            lambda t: [["w", s, t[1], z, 0, "replace"] for s, z in
                       ([(t[0], t[2]), ("R", t[3])] if t[4] else [("R", t[3]), (t[0], t[2])])])
        twol = st.tuples(st.sampled_from(L), st.sampled_from(FEW), st.sampled_from(["a", "c"]), st.booleans()).map(
            lambda t: [["ln", t[0], t[1], t[2]], ["w", "R", t[1], 10, 0, "replace"]][::1 if t[3] else -1])
        return st.one_of(two, two, w, twol)
    if bias == "cross":
        # A directory goes on one side, and something happens in it on the other.
        D = st.sampled_from(DIRS[:4])
        both = st.tuples(st.sampled_from(L), st.booleans()).map(lambda t: (t[0], "R") if t[1] else ("R", t[0]))
        inside = st.one_of(st.sampled_from(["a", "b.txt", "d2/c", "d/é", "d.x/.h", "new", "d2/d/new"]))
        op = st.sampled_from(["w", "w", "touch", "mkdir", "chmod", "mv"])
        return st.tuples(both, D, inside, op, size, st.booleans(), st.integers(0, 3)).map(cross)
    if bias == "names":
        # Files of the same name go at the same time.
        f = st.sampled_from(["a", "b.txt", "a.tar.gz", ".h"])
        ds = st.lists(st.sampled_from(["", "d/", "d2/", "d/d2/", "d.x/", "D e/d2/"]), min_size=2, max_size=4, unique=True)
        make = st.tuples(st.sampled_from(sides), f, ds, size).map(
            lambda t: [["w", t[0], d + t[1], t[3], 0, "replace"] for d in t[2]])
        gone = st.tuples(st.sampled_from(L), f, ds).map(lambda t: [["rm", t[0], d + t[1]] for d in t[2]])
        return st.one_of(make, gone, gone)
    if bias == "swap":
        # Other files become the ones to keep.
        pr = st.tuples(st.just("prio"), st.integers(0, n - 1), st.lists(
            st.tuples(st.sampled_from([0, 1, 50, 900, 90000]), st.lists(num, min_size=1, max_size=5)).map(list),
            min_size=1, max_size=3))
        cf = st.tuples(st.just("cfg"), st.integers(0, n - 1), st.fixed_dictionaries(
            {"limit": st.sampled_from(["0KiB", "4KiB", "8KiB", "16KiB", "24KiB", "64KiB"])},
            optional={"afs": st.booleans(), "inflate": st.booleans()}))
        return st.one_of(pr, cf, st.tuples(pr, cf)).map(lambda o: [list(o)] if isinstance(o[0], str) else [list(x) for x in o])
    if bias == "exclude":
        return st.tuples(st.just("excl"), st.integers(0, n - 1), patterns()).map(lambda o: [list(o)])
    if bias in ("link", "out"):
        t = targets if bias == "link" else UNSAFE_TARGETS[:5] + UNSAFE_TARGETS[6:]
        one = [st.tuples(st.just("ln"), st.sampled_from(sides if bias == "link" else L), st.one_of(fp, num),
                         st.sampled_from(t)),
               st.tuples(st.just("ln"), st.sampled_from(L), st.one_of(fp, num, somedir()),
                         st.sampled_from(UNSAFE_TARGETS if unsafe else t))]
        return st.one_of(one).map(lambda o: [list(o)])


def cross(t):
    (one, other), d, f, op, size, first, k = t
    path = d + "/" + f
    there = {"w": ["w", other, path, size, k, "replace"], "touch": ["touch", other, path], "mkdir": ["mkdir", other, d + "/d2"],
             "chmod": ["chmod", other, path, 0o600], "mv": ["mv", other, k, path]}[op]
    gone = ["rm", one, d if k < 3 else path]
    return [there, gone] if first else [gone, there]


@st.composite
def history(draw, nclients=(1, 1), rounds=(1, 4), links=True, unsafe=False, pre=(2, 9), ties=True, mv=True,
            exclude=False, per=(1, 6), last=1, bias=None, small=False, remote_unsafe=False, again=False,
            cfg=None, prios=1, resets=False):
    """Edits, init of every client, and rounds of edits followed by a sync of one client. Every client
    syncs at the end, `last` times in turn."""
    n = draw(st.integers(*nclients))
    if isinstance(bias, list):
        bias = draw(st.sampled_from(bias))
    cfgs = [draw(config(exclude)) for _ in range(n)]
    for c in cfgs:
        if small:
            c["limit"] = draw(st.sampled_from(["0KiB", "4KiB", "16KiB", "24KiB"]))
        if cfg:
            c.update(cfg)
    plan = {"cfg": cfgs, "steps": []}
    S = plan["steps"]
    targets = ACYCLIC_TARGETS if exclude else SAFE_TARGETS
    S.extend(many(draw, edit(["L0"], links=links, unsafe=unsafe, mv=False, existing=False, targets=targets), pre))
    S.append(["init", 0])
    if draw(st.sampled_from([True, True, False])):
        S.append(["sync", 0])
    for i in range(1, n):
        S.append(["init", i])
    sides = ["R"] + ["L%d" % i for i in range(n)] * (2 if n == 1 else 1)
    one = [edit(sides, links=links, unsafe=unsafe, mv=mv, targets=targets)] * 8
    if ties:
        one.append(st.tuples(st.sampled_from(["tie", "same"] if n == 1 else ["tie"]), st.integers(0, n - 1),
                             st.one_of(st.integers(0, 30), filepath()), st.sampled_from([10, 5000])).map(list))
    one += [st.tuples(st.just("prio"), st.integers(0, n - 1), st.lists(
        st.tuples(st.integers(1, 5), st.lists(filepath(), min_size=1, max_size=3)).map(list),
        min_size=1, max_size=3)).map(list)] * prios
    if exclude:
        one.append(st.tuples(st.just("excl"), st.integers(0, n - 1), patterns()).map(list))
    if remote_unsafe:
        one.append(st.tuples(st.just("ln"), st.just("R"), st.one_of(filepath(), st.integers(0, 30), somedir()),
                             st.sampled_from(UNSAFE_TARGETS)).map(list))
        S.append(["mine"])
    step = st.one_of(one).map(lambda o: [o])
    if bias:
        b = biased(bias, n, sides, unsafe, targets)
        kinds = {False: step, True: b}
        step = st.sampled_from([False] + [True] * (2 if bias in ("conflict", "cross", "names") else 1)).flatmap(kinds.get)
    for _ in range(draw(st.integers(*rounds))):
        for x in many(draw, step, per):
            S.extend(x)
        k = draw(st.integers(0, n - 1))
        S.append(["again" if again else "sync", k])
    if resets and n > 1 and draw(st.integers(0, 2)) == 0:
        # One client goes, the others go on.
        S.append(["reset", draw(st.integers(0, n - 1)), draw(st.sampled_from(["k", "k", "n"]))])
        for _ in range(draw(st.integers(0, 2))):
            for x in many(draw, step, (0, 3)):
                S.extend(x)
            S.append(["sync", draw(st.integers(0, n - 1))])
    for _ in range(last):
        for i in range(n):
            S.append(["again" if again else "sync", i])
    if last > 1 and n > 1:
        S.append(["converge"])
    return plan


@st.composite
def size_history(draw, exclude=False, unsafe=False):
    """Files of many sizes, small limits, priorities."""
    n = draw(st.sampled_from([1, 1, 1, 2]))
    cfgs = [draw(config(False)) for _ in range(n)]
    lim = st.one_of(st.integers(0, 30).map(lambda k: "%dKiB" % (4 * k)), st.integers(0, 90).map(lambda k: "%dKiB" % k),
                    st.sampled_from(["20KB", "1G", "100MiB", "64k", "50000B"][:4]))
    for c in cfgs:
        c["limit"] = draw(lim)
        if exclude:
            c["exclude"] = draw(st.lists(st.sampled_from(["/a", "b.txt", "/d2", "*.gz", "d.x"]), max_size=2))
    fp = filepath()
    size = st.sampled_from([0, 1, 4096, 4097, 8192, 8193, 12000, 16384, 20000, 40000])
    plan = {"cfg": cfgs, "steps": []}
    S = plan["steps"]

    def w(sides):
        return st.tuples(st.just("w"), st.sampled_from(sides), fp, size, st.integers(0, 3), st.just("replace")).map(list)
    S.extend(many(draw, w(["L0"]), (2, 14)))
    if unsafe:
        S.extend(many(draw, st.tuples(st.just("ln"), st.just("L0"), fp, st.sampled_from(UNSAFE_TARGETS + SAFE_TARGETS[:2])).map(list), (0, 2)))
    S += [["init", 0], ["select", 0]]
    for i in range(1, n):
        S += [["init", i]]
    sides = ["R"] + ["L%d" % i for i in range(n)]
    num = st.integers(0, 30)
    prio = st.tuples(st.just("prio"), st.integers(0, n - 1), st.lists(
        st.tuples(st.integers(1, 9), st.lists(st.one_of(fp, num), min_size=1, max_size=4)).map(list),
        min_size=1, max_size=4)).map(list)
    wx = st.tuples(st.just("w"), st.sampled_from(sides), num, size, st.integers(0, 3), st.just("replace")).map(list)
    step = st.one_of(prio, prio, prio, w(sides), wx, wx, edit(sides, links=not exclude, unsafe=unsafe),
                     st.tuples(st.just("cfg"), st.integers(0, n - 1), st.fixed_dictionaries(
                         {"limit": lim}, optional={"afs": st.booleans(), "inflate": st.booleans()})).map(list))
    for _ in range(draw(st.integers(1, 5))):
        S.extend(many(draw, step, (1, 6)))
        S.append(["select", draw(st.integers(0, n - 1))])
    for i in range(n):
        S.append(["select", i])
    return plan


@st.composite
def trash_history(draw):
    """Few basenames in many directories, and mostly deletions."""
    n = draw(st.sampled_from([1, 1, 2]))
    cfgs = [draw(config(False)) for _ in range(n)]
    for c in cfgs:
        c["limit"] = draw(st.sampled_from(["0KiB", "0KiB", "4KiB", "20KiB"]))
        c["use_trash"] = draw(st.sampled_from([None, None, True, True, True, False]))
    names = draw(st.sampled_from([["a"], ["b.txt"], ["a", "a.tar.gz"], ["b.txt", "a", ".h"]]))
    fp = filepath(names)
    plan = {"cfg": cfgs, "steps": []}
    S = plan["steps"]
    w = st.tuples(st.just("w"), st.just("L0"), fp, st.sampled_from([0, 1, 5000]), st.integers(0, 3), st.just("replace")).map(list)
    S.extend(many(draw, w, (3, 12)))
    S += [["init", 0], ["sync", 0]]
    for i in range(1, n):
        S += [["init", i]]
    sides = ["R"] + ["L%d" % i for i in range(n)]
    num = st.integers(0, 30)
    L = st.sampled_from(sides[1:])
    step = st.one_of(
        st.tuples(st.just("rmph"), L, num).map(list), st.tuples(st.just("rmph"), L, num).map(list),
        st.tuples(st.just("rmph"), L, num).map(list),
        st.tuples(st.just("rm"), L, somedir()).map(list),
        st.tuples(st.just("w"), st.sampled_from(sides), fp, st.sampled_from([0, 1, 5000]), st.integers(0, 3),
                  st.just("replace")).map(list),
        st.tuples(st.just("rm"), st.sampled_from(sides), num).map(list),
        edit(sides, paths=fp))
    for _ in range(draw(st.integers(2, 7))):
        S.extend(many(draw, step, (1, 4)))
        S.append(["sync", draw(st.integers(0, n - 1))])
    for i in range(n):
        S.append(["sync", i])
    return plan


@st.composite
def init_only(draw, exclude=True):
    n = draw(st.sampled_from([1, 1, 2]))
    cfgs = [draw(config(exclude)) for _ in range(n)]
    plan = {"cfg": cfgs, "steps": []}
    S = plan["steps"]
    targets = ACYCLIC_TARGETS if exclude else SAFE_TARGETS
    S.extend(many(draw, edit(["L0"], unsafe=True, mv=False, existing=False, targets=targets), (0, 16)))
    S.append(["init", 0])
    if n > 1:
        if draw(st.booleans()):
            S.append(["sync", 0])
        S.extend(many(draw, edit(["R"], mv=True, targets=targets), (0, 8)))
        S.append(["init", 1])
    return plan


PATTERNS = ["a", "*.txt", "d", "/d", "/d/a", "d/", "d2/*", "**/c", "*", "/*", "?", "[ab]", "[!a]*", ".*", ".h",
            "/d/**", "d/**/a", "**/d/", "é", "x'y\"", "[[]q[]][*]", "D e", "/D e/", "# c", "  ", "*.tar.gz", "a.*",
            "/nope", "d.x/", "d*", "d2/d/a", "/d2/d", " a ", "*/a", "/*/*/a"]


def patterns():
    return st.lists(st.sampled_from(PATTERNS), max_size=3)


@st.composite
def reset_history(draw, exclude=True):
    plan = draw(history(nclients=(1, 2), rounds=(1, 3), exclude=exclude, unsafe=False, last=1, per=(1, 4)))
    S = plan["steps"]
    n = len(plan["cfg"])
    sides = ["R"] + ["L%d" % i for i in range(n)]
    targets = ACYCLIC_TARGETS if exclude else SAFE_TARGETS
    one = [edit(sides, targets=targets)] * 3 + [
        st.tuples(st.just("ln"), st.sampled_from(sides[1:]), st.one_of(filepath(), st.integers(0, 30)),
                  st.sampled_from(UNSAFE_TARGETS)).map(list)]
    if exclude:
        one.append(st.tuples(st.just("excl"), st.integers(0, n - 1), patterns()).map(list))
    step = st.one_of(one)
    S.extend(many(draw, step, (0, 5)))
    if draw(st.booleans()):
        S.append(["sync", draw(st.integers(0, n - 1))])
    order = draw(st.permutations(range(n)))
    for k, i in enumerate(order):
        S.append(["reset", i, draw(st.sampled_from(["", "", "k", "n", "kn"] if k == n - 1 else ["k", "k", "n"]))])
        for j in order[k + 1:]:
            S.append(["sync", j])
            S.extend(many(draw, step, (0, 2)))
    return plan
