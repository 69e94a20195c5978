"""Refusals, locks and the naming of profiles."""
import os
import re

from hypothesis import strategies as st

import c_crash
import gen
import hist
from check import Check, Result
from gen import many
from hist import State, eq, show
from world import rmtree, scan


def refused(h, who, res, message=None):
    """The command failed with an error message and status 1, without a traceback."""
    err = res.get("err") or ""
    if res.get("rc") != 1 or res.get("exc") or res.get("exit_exc") or res.get("signal"):
        h.bad("refusal", who + "expected an error with status 1, got %s" % (
            "status %s: %s" % (res.get("rc"), err[-600:]) if "rc" in res else res))
        return False
    if not err.startswith("Error: ") or "Traceback" in err:
        h.bad("refusal", who + "no error message: %r" % err[-600:])
        return False
    if message and message not in err:
        h.bad("refusal", who + "the error does not say %r: %r" % (message, err[-600:]))
        return False
    return True


def unchanged(h, who, before, after, ignore=()):
    diff = h.w.changed(before, after, ignore)
    if diff:
        h.bad("changed", who + "something changed: " + "; ".join(diff[:4]))


class C20(Check):
    id = "C20"
    technique = "model-based property testing of histories in which the remote directory goes away and comes back"
    rule = ("A case is a random history by one or two clients in which the remote directory is taken away once or several "
            "times (gone, empty, a strange directory or a dangling symlink in its place), commands are tried, "
            "local edits are made, and it is put back; the commands must be refused and change nothing, and the next sync "
            "must do what the model says. Non-trivial: a command was refused with files at stake, and a later sync "
            "succeeded.")
    tags = {"refusal", "changed", "rc", "remote-missing", "remote-lost-unchanged", "local-missing", "deleted-stays",
            "local-entry", "remote-entry", "local-extra", "remote-extra", "content-lost", "trash-extra", "trash-old",
            "trash-missing"}
    quick = 55

    def strategy(self, tier, shard):
        return self.plans()

    @staticmethod
    @st.composite
    def plans(draw):
        plan = draw(gen.history(nclients=(1, 2), rounds=(1, 2), exclude=draw(st.booleans()), unsafe=True, last=1))
        S = plan["steps"]
        n = len(plan["cfg"])
        targets = gen.ACYCLIC_TARGETS
        local = gen.edit(["L%d" % i for i in range(n)], unsafe=True, targets=targets)
        both = gen.edit(["R"] + ["L%d" % i for i in range(n)], targets=targets)
        i = st.integers(0, n - 1)
        for _ in range(draw(st.integers(1, 3))):
            S.extend(many(draw, both, (0, 3)))
            S.append(["away", draw(st.sampled_from(["gone", "empty", "empty", "strange", "dangling"]))])
            for _ in range(draw(st.integers(1, 4))):
                S.append(draw(st.one_of(
                    local, st.tuples(st.just("try"), i, st.sampled_from(
                        ["sync", "sync", "sync", "reset", "reset -k", "empty-trash"])).map(list))))
            S.append(["try", draw(i), "sync"])
            S.append(["back"])
            S.extend(many(draw, both, (0, 2)))
            S += [["sync", k] for k in draw(st.permutations(range(n)))]
        return plan

    def valid(self, plan):
        # Edits on the remote side and syncs only while it is there.
        away = False
        for op in plan["steps"]:
            if op[0] in ("away", "back"):
                if away == (op[0] == "away"):
                    return False
                away = not away
            elif away and op[0] not in ("try", "w", "rm", "mkdir", "touch", "chmod", "mv", "rmph", "ln"):
                return False
            elif away and op[1] == "R":
                return False
        return not away

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        h.stats.update(refused=0)
        try:
            for op in plan["steps"]:
                if op[0] == "away":
                    self.away(h, op[1])
                elif op[0] == "back":
                    rmtree(h.w.R) if os.path.isdir(h.w.R) and not os.path.islink(h.w.R) else (
                        os.remove(h.w.R) if os.path.lexists(h.w.R) else None)
                    os.rename(h.w.root + "/elsewhere", h.w.R)
                elif op[0] == "try":
                    self.attempt(h, op[1], op[2])
                else:
                    h.step(op)
                if h.problems:
                    break
            s = h.stats
            return Result(h.problems, s["refused"] > 0 and s["syncs"] > 1 and s["edits"] > 2, s, h.w.log)
        finally:
            h.close()

    def away(self, h, how):
        w = h.w
        os.rename(w.R, w.root + "/elsewhere")
        if how in ("empty", "strange"):
            os.mkdir(w.R)
            if how == "strange":
                w.put(w.R + "/d/strange", b"strange", 0o644, w.now())
        elif how == "dangling":
            os.symlink(w.root + "/nowhere", w.R)

    def attempt(self, h, i, what):
        w = h.w
        c = w.clients[i]
        if not c.up:
            return
        before = w.freeze()
        res = w.run(c, what.split() + [c.name])
        who = "%s of client %d without the remote directory: " % (what, i)
        if refused(h, who, res, "remote directory could not be found"):
            h.stats["refused"] += 1
        unchanged(h, who, before, w.freeze())


# --------------------------------------------------------------------------------------------------
BAD_NAMES = ["a b", "a\tb", "p\n", "a/b", "../p", "..", ".", "a.b", "", " ", "p:q", "*", "~", "a$"]
BAD_VALUES = [("StorageLimit", "10"), ("StorageLimit", "10XB"), ("StorageLimit", "-1GB"), ("StorageLimit", "1.5GB"),
              ("StorageLimit", "GB"), ("StorageLimit", "10 G B"), ("SyncInterval", "soon"), ("SyncInterval", "-5"),
              ("SyncInterval", "1.5"), ("PriorityHalfLife", "0"), ("PriorityHalfLife", "-3"), ("PriorityHalfLife", "x"),
              ("UseTrash", "maybe"), ("UseTrash", "1"), ("TrashCleanupPeriod", "never"), ("TrashCleanupPeriod", "--3"),
              ("InflatePriority", "on"), ("AccountForSize", "y"), ("LocalDir", "some/dir"), ("RemoteDir", "some/dir"),
              ("LocalDir", "~other/x"), ("LocalDir", "./x")]
SPELLINGS = ["plain", "slash", "dots", "double", "link", "home"]
FAULTS = ["name-taken", "name-bad", "tpl-missing", "tpl-dir", "tpl-unknown", "tpl-omits", "tpl-value", "tpl-value",
          "tpl-binary", "exclude-missing", "exclude-dir", "local-missing", "local-file", "local-dangling", "local-in-file",
          "local-other", "local-other", "local-other", "local-program", "local-readonly", "remote-missing",
          "remote-file", "remote-dangling", "remote-in-file", "remote-overlap", "remote-overlap", "remote-readonly",
          "flag"]


class C17(Check):
    id = "C17"
    technique = "property-based testing of init with one or two random faults in its arguments"
    rule = ("A case is a world with up to three profiles, in which a new profile is initialised several times with one or "
            "two faults in its name, template, exclude file or directories (overlaps are spelled through symlinks, '..', "
            "double slashes and '~'); each attempt must end with an error and status 1 and leave everything as it was, and "
            "the init without faults must then succeed. Non-trivial: two attempts with different faults were refused, with "
            "files in the directories.")
    tags = {"refusal", "changed", "accepted", "rc", "init-remote", "init-local", "init-excluded", "init-unsafe", "left"}
    lists = ["steps", "others"]
    quick = 90

    def strategy(self, tier, shard):
        return self.plans()

    @staticmethod
    @st.composite
    def plans(draw):
        n = draw(st.integers(1, 2))
        cfg = [{"limit": "100MiB", "xdg": "cfg", "exclude": draw(gen.patterns()) if draw(st.booleans()) else []}
               for _ in range(n)]
        S = [["w", "L0", draw(gen.filepath()), 10, 0, "replace"]]
        S += many(draw, gen.edit(["L0"], targets=gen.ACYCLIC_TARGETS), (0, 5))
        for k in range(n - 1):
            S.append(["init", k])
        others = [[draw(st.sampled_from(["done", "done", "done", "partial", "broken", "empty", "fresh"])),
                   draw(st.sampled_from(["plain", "link", "sibling", "dots"]))]
                  for _ in range(draw(st.integers(0, 2)))]
        for _ in range(draw(st.integers(3, 9))):
            faults = [[draw(st.sampled_from(FAULTS)), draw(st.sampled_from(range(48))), draw(st.sampled_from(SPELLINGS))]
                      for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
            S.append(["bad", faults])
            if draw(st.integers(0, 3)) == 0:
                S.extend(many(draw, gen.edit(["R"] if n > 1 else ["L0"], targets=gen.ACYCLIC_TARGETS), (1, 2)))
        S.append(["good"])
        return {"cfg": cfg, "steps": S, "others": others}

    def valid(self, plan):
        inits = [op[1] for op in plan["steps"] if op[0] == "init"]
        return inits == list(range(len(plan["cfg"]) - 1)) and (
            plan["steps"][-1:] == [["good"]] and ["good"] not in plan["steps"][:-1])

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        w = h.w
        h.stats.update(refused=0)
        kinds = set()
        self.others(h, plan["others"])
        try:
            for op in plan["steps"]:
                if op[0] == "bad":
                    kinds |= self.bad(h, op[1])
                elif op[0] == "good":
                    self.good(h)
                else:
                    h.step(op)
                if h.problems:
                    break
            return Result(h.problems, len(kinds) > 1 and h.stats["edits"] > 0, h.stats, w.log)
        finally:
            h.close()

    def others(self, h, kinds):
        """Other profiles of the same user, in several states."""
        w = h.w
        self.dirs = []
        for k, (kind, how) in enumerate(kinds):
            d = w.root + "/o%d" % k
            name = "o%s-%d" % (w.tag, k)
            # The name of a directory may begin with that of another one.
            L = w.clients[-1].L + "x" * (k + 1) if how == "sibling" else d + "/L"
            self.dirs.append(L)
            w.put(L + "/d/f", b"other %d" % k, 0o644, w.now())
            os.makedirs(d + "/R")
            p = w.clients[0].xdg + "/zielen/profiles/" + name
            if kind == "empty":
                os.makedirs(p)
                continue
            if kind == "broken":
                w.put(p + "/config", b"no config\n", 0o644, w.now())
                continue
            tpl = w.root + "/tpl/o%d" % k
            if how == "link":
                os.symlink(os.path.dirname(L), d + "/link")
                L = d + "/link/" + os.path.basename(L)
            elif how == "dots":
                L = self.spell(w, L, "dots")
            w.put(tpl, ("LocalDir=%s\nRemoteDir=%s/R\nStorageLimit=1GB\n" % (L, d)).encode(), 0o644, w.now())
            inject = None
            if kind == "partial":
                # killed while it moves files
                inject = {"mode": 1, "at": 40}
            if kind != "fresh":
                res = w.run(w.clients[0], ["init", "-t", tpl, name], inject=inject)
                if kind == "done" and res.get("rc") != 0:
                    h.bad("rc", "init of another profile failed: %s" % (res.get("err") or res))

    def spell(self, w, path, how):
        """The same directory in another spelling."""
        if how == "slash":
            return path + "/"
        if how == "double":
            return path.replace("/", "//", 3)[1:]
        if how == "dots":
            return os.path.dirname(path) + "/../" + os.path.basename(os.path.dirname(path)) + "/" + os.path.basename(path)
        if how == "home":
            return "~/../" + os.path.relpath(path, w.root)
        if how == "link":
            link = w.root + "/tpl/link"
            if os.path.lexists(link):
                os.remove(link)
            os.symlink(os.path.dirname(path), link)
            return link + "/" + os.path.basename(path)
        return path

    def bad(self, h, faults):
        w = h.w
        c = w.clients[-1]
        add = len(w.clients) > 1
        scratch = w.root + "/tpl"       # not compared
        name, tpl, exc = c.name, scratch + "/t", (scratch + "/e" if c.patterns else None)
        vals = {"LocalDir": c.L, "RemoteDir": w.R, "StorageLimit": "1GB"}
        omit, more, raw = set(), [], None
        kinds = set()
        undo = []
        skip = set()

        def fresh(path):
            rmtree(path) if os.path.isdir(path) and not os.path.islink(path) else (
                os.remove(path) if os.path.lexists(path) else None)
            return path
        profiles = w.clients[0].xdg + "/zielen/profiles"
        # local directories of profiles whose directories have been checked
        taken = [x.L for x in w.clients[:-1] if x.up]
        for k, (kind, _) in enumerate(h.plan["others"]):
            if kind == "done" or kind == "partial" and os.path.exists(profiles + "/o%s-%d/info.json" % (w.tag, k)):
                taken.append(self.dirs[k])
        names = [x.name for x in w.clients[:-1] if x.up] + [
            "o%s-%d" % (w.tag, k) for k, (kind, _) in enumerate(h.plan["others"]) if kind == "done"]
        for kind, num, how in faults:
            if kind == "name-taken":
                if not names:
                    continue
                name = names[num % len(names)]
            elif kind == "name-bad":
                name = BAD_NAMES[num % len(BAD_NAMES)]
            elif kind == "tpl-missing":
                tpl = scratch + "/nowhere"
            elif kind == "tpl-dir":
                tpl = w.outside
            elif kind == "tpl-unknown":
                more.append(["Frobnicate=1", "localdir=/x", "Local Dir=/x", "StorageLimits=1GB", "=x"][num % 5])
            elif kind == "tpl-omits":
                omit.add(sorted(vals)[num % 3])
            elif kind == "tpl-value":
                key, v = BAD_VALUES[num % len(BAD_VALUES)]
                if key in vals:
                    vals[key] = v
                else:
                    more.append(key + "=" + v)
            elif kind == "tpl-binary":
                raw = b"LocalDir=\xff\xfe\x80\nRemoteDir=\x81\n"
            elif kind == "exclude-missing":
                exc = scratch + "/nowhere"
            elif kind == "exclude-dir":
                exc = w.outside
            elif kind == "local-missing":
                if add:
                    continue        # the directory is made
                vals["LocalDir"] = w.root + "/nowhere/L"
            elif kind == "local-file":
                vals["LocalDir"] = w.outside + "/a"
            elif kind == "local-dangling":
                os.symlink(w.root + "/nowhere", fresh(scratch + "/dangling"))
                vals["LocalDir"] = scratch + "/dangling"
            elif kind == "local-in-file":
                vals["LocalDir"] = w.outside + "/a/L"
            elif kind == "local-other":
                if not taken:
                    continue
                t = taken[num % len(taken)]
                where = ["", "/d", "/new/dir", ".."][(num // 3) % 4]
                if where == "..":
                    t = os.path.dirname(t)
                elif where == "/d":
                    os.makedirs(t + "/d", exist_ok=True)
                    t += "/d"
                else:
                    t += where
                vals["LocalDir"] = self.spell(w, t, how)
            elif kind == "local-program":
                t = c.xdg + ["/zielen", "/zielen/profiles", "", "/zielen/profiles/newone", "/zielen/x"][num % 5]
                vals["LocalDir"] = self.spell(w, t, how)
            elif kind == "local-readonly":
                os.makedirs(fresh(scratch + "/ro"))
                if not add:
                    w.put(scratch + "/ro/f", b"x", 0o644, w.now())
                os.chmod(scratch + "/ro", 0o555)
                vals["LocalDir"] = scratch + "/ro" + ("/new" if add and num % 2 else "")
            elif kind == "remote-missing":
                if not add:
                    continue
                vals["RemoteDir"] = w.root + "/nowhere/R"
            elif kind == "remote-file":
                vals["RemoteDir"] = w.outside + "/a"
            elif kind == "remote-dangling":
                os.symlink(w.root + "/nowhere", fresh(scratch + "/dangling2"))
                vals["RemoteDir"] = scratch + "/dangling2"
            elif kind == "remote-in-file":
                vals["RemoteDir"] = w.outside + "/a/R"
            elif kind == "remote-overlap":
                t = [c.L, c.L + "/r", os.path.dirname(c.L), "/"][num % 4]
                if vals["LocalDir"] != c.L:
                    continue
                vals["RemoteDir"] = self.spell(w, t, how) if t != "/" else t
            elif kind == "remote-readonly":
                os.makedirs(fresh(scratch + "/ro2"))
                os.chmod(scratch + "/ro2", 0o555)
                vals["RemoteDir"] = scratch + "/ro2" + ("/new" if not add and num % 2 else "")
            elif kind == "flag":
                # A full local directory with --add-remote, or a full remote directory without it.
                if add and not scan(w.R, skip=(".zielen",)) or not add and not os.listdir(c.L):
                    continue
                if vals["LocalDir"] != c.L or vals["RemoteDir"] != w.R or "flag" in kinds:
                    continue
                add = not add
            kinds.add(kind)
        if not kinds:
            return kinds
        if exc == scratch + "/e":
            w.put(exc, "".join(p + "\n" for p in c.patterns).encode(), 0o644, w.now())
        lines = ["%s=%s" % (k, v) for k, v in vals.items() if k not in omit] + more
        w.put(scratch + "/t", raw or ("\n".join(lines) + "\n").encode(), 0o644, w.now())
        before = w.freeze()
        res = w.run(c, ["init", "-t", tpl] + (["-e", exc] if exc else []) + (["-a"] if add else []) + ["--", name],
                    cwd=w.root)
        who = "init with %s (%s): " % (", ".join(sorted(kinds)), lines)
        if res.get("rc") == 0:
            h.bad("accepted", who + "was not refused")
            return kinds
        if refused(h, who, res):
            h.stats["refused"] += 1
        after = w.freeze()
        # Directories that were made before the refusal, for the directories that were asked for, stay empty.
        made = set()
        for p in set(after) - set(before):
            full = w.root + "/" + p
            if after[p][0] == "d" and not any(q.startswith(p + "/") and after[q][0] != "d" for q in after):
                wanted = [os.path.realpath(os.path.expanduser(v)) if v[:1] != "~" else os.path.realpath(w.home + v[1:])
                          for v in (vals["LocalDir"], vals["RemoteDir"], profiles)]
                if any((v + "/").startswith(full + "/") for v in wanted) and not any(
                        (full + "/").startswith(t + "/") for t in taken + [profiles]) or (
                        (profiles + "/").startswith(full + "/")):
                    made.add(p)
        unchanged(h, who, before, after, made)
        for p in sorted(made, reverse=True):
            if not (profiles + "/").startswith(w.root + "/" + p + "/"):
                os.rmdir(w.root + "/" + p)
        for ro in ("/ro", "/ro2"):
            if os.path.isdir(scratch + ro):
                os.chmod(scratch + ro, 0o755)
        return kinds

    def good(self, h):
        w = h.w
        i = len(w.clients) - 1
        h.init(i)
        if h.problems:
            return
        for k in range(len(w.clients)):
            h.sync(k)


# --------------------------------------------------------------------------------------------------
FORMS = ["name", "abs", "slash", "dots", "double", "rel", "dot", "dotrel", "cd", "link", "linkdir", "out"]
NOT_A_PROFILE = ["unknown", "sub", "parent", "remote", "missing", "file", "config", "empty", "subrel", "prefix", "partof",
                 "program", "otherdir", "linkfile"]
EXTRA = ["empty", "noconfig", "binary", "incomplete", "invalid", "blank", "partial", "nolocal", "file"]


class C32(Check):
    id = "C32"
    technique = "metamorphic property-based testing: the same command on profiles named in different ways, and list"
    rule = ("A case is a random history by two or three profiles of one user that share a remote directory, in which each "
            "command names its profile by name or by a path in some spelling (absolute, relative to some working directory, "
            "with '..', a trailing slash or through symlinks), next to other profiles that are broken or interrupted; "
            "commands with arguments that name no profile must be refused and change nothing; list must show every profile. "
            "Non-trivial: two commands by path, a refusal and a list.")
    tags = {"refusal", "changed", "accepted", "list", "rc", "remote-missing", "remote-extra", "remote-entry", "local-missing",
            "local-extra", "local-entry", "reset-profile", "reset-placeholder", "reset-local", "reset-remote", "trash-extra",
            "trash-old", "trash", "outside"}
    lists = ["steps", "extra"]
    quick = 45

    def strategy(self, tier, shard):
        return self.plans()

    @staticmethod
    @st.composite
    def plans(draw):
        n = draw(st.integers(2, 3))
        dirs = draw(st.permutations(["L0", "L 0", "L0x", "some/where/L", "some/where else", "@NAME@"]))
        cfg = [{"limit": draw(st.sampled_from(["100MiB", "8KiB", "2GB", "1000 K"])), "xdg": "cfg", "dir": dirs[k]}
               for k in range(n)]
        i = st.integers(0, n - 1)
        form = st.sampled_from(FORMS)
        sides = ["R"] + ["L%d" % k for k in range(n)]
        S = many(draw, gen.edit(["L0"], links=False), (1, 5)) + [["init", k] for k in range(n)]
        cmd = st.sampled_from(["sync", "reset", "reset -k", "reset -n", "empty-trash"])
        kinds = {
            "edit": gen.edit(sides, links=False),
            "sync": st.tuples(st.just("sync"), i, form),
            "trash": st.tuples(st.just("trash"), i, form),
            "refuse": st.tuples(st.just("refuse"), st.sampled_from(NOT_A_PROFILE), st.integers(0, 9), cmd),
            "list": st.just(("list",))}
        step = st.sampled_from(["edit"] * 4 + ["sync"] * 4 + ["trash"] + ["refuse"] * 3 + ["list"]).flatmap(
            kinds.get).map(list)
        S += many(draw, step, (4, 12)) + [["list"]]
        if draw(st.booleans()):
            S.append(["reset", draw(i), draw(st.sampled_from(["k", "n", "k"])), draw(form)])
            S += many(draw, step, (0, 3)) + [["list"]]
        return {"cfg": cfg, "steps": S, "extra": draw(st.lists(st.sampled_from(EXTRA), max_size=3, unique=True))}

    def valid(self, plan):
        inits = [op[1] for op in plan["steps"] if op[0] == "init"]
        return inits == list(range(len(plan["cfg"])))

    def run(self, ctx, plan):
        cfg = []
        for k, c in enumerate(plan["cfg"]):
            # The name of a profile is the path of another one's directory.
            cfg.append(dict(c, dir=c["dir"].replace("@NAME@", "p%s-%d" % (ctx.tag, (k + 1) % len(plan["cfg"])))))
        h = hist.History(ctx, dict(plan, cfg=cfg))
        w = h.w
        h.stats.update(refused=0, paths=0, lists=0)
        self.rows = {}
        try:
            for op in plan["steps"]:
                k = op[0]
                if k in ("sync", "trash", "reset"):
                    c = w.clients[op[1]]
                    if not c.up:
                        continue
                    arg, cwd = self.name(h, c, op[-1])
                    h.stats["paths"] += op[-1] != "name"
                    before = hist.State(w)
                    if k == "sync":
                        h.sync(op[1], before=before, res=h.watch(op[1], lambda: w.run(c, ["sync", "--", arg], cwd=cwd)))
                    elif k == "reset":
                        h.reset(op[1], op[2], before=before, res=h.watch(op[1], lambda: w.run(
                            c, ["reset", "-" + op[2], "--", arg], cwd=cwd)))
                    else:
                        self.empty(h, op[1], arg, cwd)
                    if h.problems:
                        h.problems[-1] = (h.problems[-1][0], "(named %r in %r) %s" % (arg, cwd, h.problems[-1][1]))
                elif k == "refuse":
                    self.refuse(h, *op[1:])
                elif k == "list":
                    self.list(h)
                elif k == "init":
                    h.init(op[1])
                    if op[1] == len(cfg) - 1:
                        self.extras(h, plan["extra"])
                else:
                    h.step(op)
                if h.problems:
                    break
            s = h.stats
            return Result(h.problems, s["paths"] > 1 and s["refused"] > 0 and s["lists"] > 0, s, w.log)
        finally:
            h.close()

    def extras(self, h, kinds):
        w = h.w
        for k, kind in enumerate(kinds):
            name = "x%s-%d" % (w.tag, k)
            d = w.clients[0].xdg + "/zielen/profiles/" + name
            x = w.root + "/x%d" % k
            w.put(x + "/L/f", b"extra", 0o644, w.now())
            os.makedirs(x + "/R")
            if kind == "empty":
                os.makedirs(d)
            elif kind == "noconfig":
                w.put(d + "/info.json", b"{}", 0o644, w.now())
            elif kind == "binary":
                w.put(d + "/config", b"LocalDir=\xff\xfe\x80\n", 0o644, w.now())
                w.put(d + "/info.json", b"{}", 0o644, w.now())
            elif kind == "file":
                w.put(d, b"file", 0o644, w.now())
            elif kind in ("incomplete", "invalid", "blank", "nolocal"):
                local = {"blank": "", "nolocal": x + "/nowhere"}.get(kind, x + "/L")
                lines = [] if kind == "incomplete" else ["LocalDir=" + local]
                lines.append("RemoteDir=" + x + "/R")
                lines.append("StorageLimit=" + ("lots" if kind == "invalid" else "5GB"))
                w.put(d + "/config", "".join(s + "\n" for s in lines).encode(), 0o644, w.now())
                self.rows[name] = ("" if kind == "incomplete" else local, x + "/R", lines[-1][13:])
                if kind in ("invalid", "nolocal"):
                    w.put(d + "/info.json", b'{"Status": "initialized"}', 0o644, w.now())
            elif kind == "partial":
                tpl = w.root + "/tpl/x%d" % k
                w.put(tpl, ("LocalDir=%s/L\nRemoteDir=%s/R\nStorageLimit=1GB\n" % (x, x)).encode(), 0o644, w.now())
                w.run(w.clients[0], ["init", "-t", tpl, name], inject={"mode": 1, "at": 40})
                if os.path.exists(d + "/config"):
                    self.rows[name] = None      # may or may not be complete

    def name(self, h, c, form):
        """An argument that names the profile, and the working directory for it."""
        w = h.w
        L = c.L
        cwd = w.root
        rel = os.path.relpath(L, w.root)
        names = [x.name for x in w.clients]
        if form == "name":
            return c.name, cwd
        if form == "slash":
            return L + "/", cwd
        if form == "dots":
            return L + "/../" + os.path.basename(L), cwd
        if form == "double":
            return L.replace("/", "//", 4)[1:], cwd
        if form == "rel" and rel not in names:
            return rel, cwd
        if form in ("dotrel", "rel"):
            return "./" + rel, cwd
        if form == "dot":
            return ".", L
        if form == "cd":
            return "../" + os.path.basename(L) + "/.", L
        if form in ("link", "linkdir"):
            at, to = (w.root + "/tpl/ln%d" % c.i, L) if form == "link" else (w.root + "/tpl/up%d" % c.i, os.path.dirname(L))
            if not os.path.lexists(at):
                os.symlink(to, at)
            return (at, cwd) if form == "link" else (at + "/" + os.path.basename(L), cwd)
        if form == "out":
            return os.path.relpath(L, w.outside + "/sub"), w.outside + "/sub"
        return L, cwd

    def empty(self, h, i, arg, cwd):
        w = h.w
        c = w.clients[i]
        before = w.freeze()
        res = w.run(c, ["empty-trash", "--", arg], cwd=cwd)
        if res.get("rc") != 0:
            h.bad("rc", "empty-trash %r failed: %s" % (arg, (res.get("err") or str(res))[-600:]))
            return
        if w.trash():
            h.bad("trash", "empty-trash %r left %s" % (arg, sorted(w.trash())[:3]))
        t = os.path.relpath(w.R, w.root) + "/.zielen/Trash/"
        unchanged(h, "empty-trash %r: " % arg, {p: e for p, e in before.items() if not p.startswith(t)}, w.freeze())

    def refuse(self, h, kind, num, what):
        w = h.w
        c = w.clients[num % len(w.clients)]
        cwd = w.root
        dirs = [x.L for x in w.clients if x.up]
        tree = scan(c.L)
        if kind == "unknown":
            n = c.name
            arg = (n + "x", n + "/", " " + n, n + " ", n.upper(), "./" + n, n + "*", n + "\n")[num % 8]
        elif kind == "prefix":
            arg = c.name[:-1 - num % 3]
        elif kind == "empty":
            arg = ""
        elif kind in ("sub", "subrel"):
            subs = sorted(p for p, e in tree.items() if e[0] == "d")
            if not subs:
                return
            arg = c.L + "/" + subs[num % len(subs)]
            if kind == "subrel":
                arg, cwd = subs[num % len(subs)], c.L
        elif kind == "parent":
            arg = os.path.dirname(c.L)
        elif kind == "remote":
            arg = w.R
        elif kind == "missing":
            arg = c.L + "/nowhere"
        elif kind in ("file", "linkfile"):
            files = sorted(p for p, e in tree.items() if e[0] in ("f" if kind == "file" else "l"))
            if not files:
                return
            arg = c.L + "/" + files[num % len(files)]
        elif kind == "config":
            arg = c.pdir + "/config"
        elif kind == "partof":
            arg = c.L[:-1]
        elif kind == "program":
            arg = [c.pdir, os.path.dirname(c.pdir), "profiles/" + c.name][num % 3]
        else:
            arg = w.outside
        real = os.path.realpath(os.path.join(cwd, arg)) if arg else None
        if real in [os.path.realpath(d) for d in dirs] or arg in [x.name for x in w.clients]:
            return
        if not arg and cwd in dirs:
            return
        before = w.freeze()
        res = w.run(c, what.split() + ["--", arg], cwd=cwd)
        who = "%s %r (%s): " % (what, arg, kind)
        if res.get("rc") == 0:
            h.bad("accepted", who + "was not refused")
            return
        if refused(h, who, res):
            h.stats["refused"] += 1
        unchanged(h, who, before, w.freeze())

    def list(self, h):
        w = h.w
        before = w.freeze()
        res = w.run(w.clients[0], ["list"])
        unchanged(h, "list: ", before, w.freeze())
        if res.get("rc") != 0:
            h.bad("list", "list failed: %s" % (res.get("err") or str(res))[-600:])
            return
        h.stats["lists"] += 1
        want = dict(self.rows)
        for c in w.clients:
            if c.up:
                want[c.name] = (c.L, w.R, c.cfg["limit"])
        plain = re.sub("\x1b\\[[0-9;]+m", "", res.get("out") or "")
        lines = [s for s in plain.split("\n") if s.strip()]
        if not any(c.up for c in w.clients) and not want:
            return
        if len({len(s) for s in lines}) != 1:
            h.bad("list", "the columns are not aligned:\n" + plain)
        bars = None
        rows = {}
        for s in lines:
            pos = tuple(m.start() for m in re.finditer("[\u2502\u253c\u252c\u2534\u251c\u2524\u250c\u2510\u2514\u2518]", s))
            bars = bars or pos
            if pos != bars:
                h.bad("list", "the columns are not aligned:\n" + plain)
            if s[0] == "\u2502":
                cells = tuple(x.strip() for x in s[1:-1].split("\u2502"))
                rows.setdefault(cells[0], []).append(cells[1:])
        rows.pop("Profile", None)
        for name, cells in sorted(want.items()):
            if cells is not None and rows.get(name) != [cells]:
                h.bad("list", "list shows %s for %s, expected %s" % (rows.get(name), name, cells))
        for name in sorted(set(rows) - set(want)):
            h.bad("list", "list shows %s, which is not a profile" % name)


# --------------------------------------------------------------------------------------------------
COMMANDS = ["sync", "sync", "sync", "reset", "reset -k", "reset -n", "empty-trash", "init"]


class C21(Check):
    id = "C21"
    technique = "schedule exploration: a second command while the first one is stopped at a random system call"
    rule = ("A case is a random history of one profile in which a command is stopped at a randomly chosen call that changes "
            "the filesystem or takes the lock, other commands on the same profile are run (refused, and nothing changes), as "
            "well as commands on a profile with a similar name and on another user's profile of the same name (not refused), "
            "and the first one goes on and must end as if it had been alone, or is killed or terminated and must not block "
            "the profile after that; or two commands are started at the same moment. Non-trivial: a command was refused "
            "while the first one had changed something.")
    tags = {"refusal", "changed", "accepted", "blocked", "rc", "remote-missing", "remote-extra", "remote-entry",
            "local-missing", "local-extra", "local-entry", "reset-profile", "reset-placeholder", "reset-local",
            "reset-remote", "init-local", "init-remote", "trash", "both"}
    quick = 80

    def strategy(self, tier, shard):
        return self.plans()

    @staticmethod
    @st.composite
    def plans(draw):
        plan = draw(gen.history(nclients=(1, 1), rounds=(0, 2), links=False, last=1))
        S = plan["steps"]
        plan["similar"] = draw(st.integers(0, 7))
        if plan["similar"] > 5 or draw(st.integers(0, 3)) == 0:
            plan["cfg"][0]["suffix"] = draw(st.sampled_from(["-and-a-long-name", "-" + 40 * "x", "_and_a_long_name", "0123456789"]))
        edit = gen.edit(["R", "L0"], links=False)
        B = st.sampled_from(COMMANDS + ["similar", "user"])
        at = st.sampled_from([None] * 8 + list(range(0, 1000, 31)))
        end = st.sampled_from(["cont", "cont", "cont", "cont", "kill", "term"])
        if draw(st.integers(0, 4)) == 0:
            S = many(draw, gen.edit(["L0"], links=False), (2, 7))
            plan["steps"] = S
            S.append(["race", "init", draw(at), many(draw, B, (1, 3)), draw(end)])
        for _ in range(draw(st.integers(1, 3))):
            S.extend(many(draw, edit, (1, 5)))
            if draw(st.booleans()):
                S.append(["fill", draw(st.integers(1, 5))])
            if draw(st.integers(0, 5)) == 0:
                S.append(["both", draw(st.sampled_from(["sync", "sync", "empty-trash"])), "sync"])
            else:
                S.append(["race", draw(st.sampled_from(COMMANDS[:5] + ["empty-trash"])), draw(at),
                          many(draw, B, (1, 3)), draw(end), many(draw, edit, (0, 3))])
        return plan

    def valid(self, plan):
        ups = 0
        for op in plan["steps"]:
            if op[0] == "init":
                ups += 1
        return ups <= 1

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        w = h.w
        h.stats.update(refused=0, early=0, allowed=0, killed=0, parallel=0, nouser=0)
        self.pid = None
        self.users(h)
        try:
            for op in plan["steps"]:
                if op[0] == "race":
                    if not self.race(h, *op[1:]):
                        break
                elif op[0] == "fill":
                    if w.clients[0].up:
                        for k in range(op[1]):
                            w.put(w.R + "/.zielen/Trash/t%d%s" % (k, "/x" * (k % 2)), b"trash", 0o644, w.now())
                elif op[0] == "both":
                    if w.clients[0].up:
                        self.both(h, op[1], op[2])
                elif op[0] != "init" or not w.clients[0].up:
                    h.step(op)
                if h.problems:
                    break
            return Result(h.problems, h.stats["refused"] > 0, h.stats, w.log)
        finally:
            if self.pid is not None:
                w.z.call(op="kill", pid=self.pid, sig=9)
                w.z.call(op="wait", pid=self.pid, timeout=20)
            h.close()

    def users(self, h):
        """A profile with a similar name, and one with the same name in the home of another user."""
        w = h.w
        c = w.clients[0]
        self.z = {}
        n = c.name
        self.near = (n + "1", n.upper(), n[:-2], n.replace("-", "_"), n[:-1] + "1", "_" + n,
                     n + "2", n[:-1] + "y")[h.plan.get("similar", 0)]
        for who, name, xdg in (("similar", self.near, c.xdg), ("user", c.name, w.root + "/other-cfg")):
            d = w.root + "/z-" + who
            w.put(d + "/L/f", b"x", 0o644, w.now())
            os.makedirs(d + "/R")
            w.put(w.root + "/tpl/z", ("LocalDir=%s/L\nRemoteDir=%s/R\nStorageLimit=1GB\n" % (d, d)).encode(), 0o644,
                  w.now())
            res = w.run(c, ["init", "-t", w.root + "/tpl/z", name], env={"XDG_CONFIG_HOME": xdg})
            if res.get("rc") != 0:
                h.bad("rc", "init failed: %s" % (res.get("err") or res))
            self.z[who] = (name, xdg)

    def argv(self, h, what):
        c = h.w.clients[0]
        if what == "init":
            tpl = h.w.root + "/tpl/template0"
            with open(tpl, "w") as f:
                f.write(h.w.template(c))
            return ["init", "-t", tpl, c.name]
        return what.split() + [c.name]

    def other(self, h, who, state):
        """A command on another profile, which must not be blocked."""
        w = h.w
        name, xdg = self.z[who]
        res = w.run(w.clients[0], ["sync", name], env={"XDG_CONFIG_HOME": xdg},
                    patch={"uid": 1000} if who == "user" else None)
        if who == "user" and res.get("rc") == 77:
            h.stats["nouser"] += 1
            return
        h.stats["allowed"] += 1
        if res.get("rc") != 0:
            h.bad("blocked", "sync of %s failed while %s: %s" % (
                "a profile with a similar name" if who == "similar" else "another user's profile of the same name",
                state, (res.get("err") or str(res))[-500:]))

    def skip(self, d):
        return {p: e for p, e in d.items() if not p.startswith(("z-", "other-cfg")) and "/%s/" % self.near not in p}

    def race(self, h, what, at, seconds, end, edits=()):
        """Returns whether the history goes on."""
        w = h.w
        c = w.clients[0]
        if (what == "init") == c.up:
            return True
        argv = self.argv(h, what)
        inject = {"mode": 4, "err": 19, "at": 1, "sock": 2}
        if at is not None:
            # Run it once undisturbed to know how many calls there are.
            snap = c_crash.Snapshot(h)
            ops = w.run(c, argv, inject={"mode": 0, "sock": 1}).get("ops") or 1
            snap.restore()
            snap.remove()
            inject = dict(inject, at=1 + at * ops // 1000, sock=1)
        f0 = self.skip(w.freeze())
        before = hist.State(w)
        h.stats["race_" + what] = h.stats.get("race_" + what, 0) + 1
        h.stats["at_lock"] = h.stats.get("at_lock", 0) + (at is None)
        self.pid = w.start(c, argv, inject=inject)
        if not w.z.call(op="stopped", pid=self.pid, timeout=30).get("value"):
            h.stats["early"] += 1
            return self.finish(h, what, argv, before, f0)
        f1 = self.skip(w.freeze())
        state = "%s is stopped %s" % (what, "when it takes the lock" if at is None else "at call %d" % inject["at"])
        for b in seconds:
            if b in self.z:
                self.other(h, b, state)
                continue
            res = w.run(c, self.argv(h, b))
            who = "%s while %s: " % (b, state)
            f2 = self.skip(w.freeze())
            if res.get("rc") == 0:
                # Only possible if the first one hasn't begun.
                if w.changed(f0, f1):
                    # Or if it has already ended but for the exit of the process.
                    w.z.call(op="kill", pid=self.pid, sig=18)
                    r = w.wait(c, argv, self.pid)
                    self.pid = None
                    more = w.changed(f2, self.skip(w.freeze()))
                    if r.get("rc") != 0 or more:
                        h.bad("accepted", who + "was not refused; the first one had changed %s, and went on with %s" % (
                            w.changed(f0, f1)[0], more[:1] or r))
                    return False
                h.stats["early"] += 1
                self.after(h, b, res, before, f0)
                if h.problems:
                    return False
                before = hist.State(w)
                f0 = f1 = self.skip(w.freeze())
                continue
            if refused(h, who, res):
                h.stats["refused"] += bool(w.changed(f0, f1))
            unchanged(h, who, f1, f2)
            if h.problems:
                return False
        if at is None and not w.changed(f0, self.skip(w.freeze())):
            # It has not begun, so these edits come before it.
            for e in edits:
                h.step(e)
            before = hist.State(w)
            f0 = self.skip(w.freeze())
        if end == "cont":
            w.z.call(op="kill", pid=self.pid, sig=18)
            return self.finish(h, what, argv, before, f0)
        if end == "term":
            w.z.call(op="kill", pid=self.pid, sig=15)
            w.z.call(op="kill", pid=self.pid, sig=18)
        else:
            w.z.call(op="kill", pid=self.pid, sig=9)
        w.wait(c, argv, self.pid)
        self.pid = None
        h.stats["killed"] += 1
        # The lock is free again, whatever else the next command says.
        again = self.argv(h, what)
        res = w.run(c, again)
        if "already taking place" in (res.get("err") or "") or res.get("rc") not in (0, 1) or (
                res.get("exc") or res.get("exit_exc")):
            h.bad("blocked", "%s after a %s %s failed: %s" % (
                what, end == "kill" and "killed" or "terminated", what, (res.get("err") or str(res))[-600:]))
        return False

    def finish(self, h, what, argv, before, f0):
        """The first command has ended; it must have done what it does alone, or nothing."""
        w = h.w
        res = w.wait(w.clients[0], argv, self.pid)
        self.pid = None
        return self.after(h, what, res, before, f0)

    def after(self, h, what, res, before, f0):
        w = h.w
        c = w.clients[0]
        who = what + ": "
        ok = res.get("rc") == 0
        valid = c.up != (what == "init")
        if what == "init" and not ok and valid and os.path.isdir(w.R + "/.zielen") and not w.changed(
                f0, self.skip(w.freeze())):
            valid = False       # another client's directory by now, after an init and a reset
        if not ok and not valid:
            # Another command had made this one senseless before it began.
            if res.get("rc") != 1 or res.get("signal"):
                h.bad("refusal", who + "expected an error with status 1, got %s" % res)
            unchanged(h, who, f0, self.skip(w.freeze()))
            return not h.problems
        if ok and not valid:
            h.bad("both", who + "succeeded, but the profile %s before it began" % (
                "was there" if what == "init" else "was gone"))
            return False
        if what == "sync":
            h.sync(0, res=res, before=before)
        elif what == "init":
            if not ok:
                h.bad("rc", "init failed: %s" % (res.get("err") or str(res))[-600:])
                return False
            c.up = True
            h.reg[0] = list(c.patterns)
            h.after_init(0, before)
        elif what.startswith("reset"):
            h.reset(0, what[7:], res=res, before=before)
        elif not ok:
            h.bad("rc", "empty-trash failed: %s" % (res.get("err") or str(res))[-600:])
        else:
            if w.trash():
                h.bad("trash", "empty-trash left %s" % sorted(w.trash())[:3])
            t = os.path.relpath(w.R, w.root) + "/.zielen/Trash/"
            unchanged(h, who, {p: e for p, e in f0.items() if not p.startswith(t)}, self.skip(w.freeze()))
        return not h.problems

    def both(self, h, a, b):
        """Two commands that are started at the same moment: one or the other comes first, or one is refused."""
        w = h.w
        c = w.clients[0]
        before = hist.State(w)
        runs = [(x, w.start(c, self.argv(h, x))) for x in (a, b)]
        res = [(x, w.wait(c, self.argv(h, x), pid)) for x, pid in runs]
        bad = [(x, r) for x, r in res if r.get("rc") != 0]
        h.stats["parallel"] += 1
        for x, r in bad:
            if "already taking place" not in (r.get("err") or "") or r.get("rc") != 1:
                h.bad("both", "%s started together with another command failed: %s" % (x, (r.get("err") or str(r))[-500:]))
        if len(bad) == 2:
            h.bad("both", "both of two commands started at the same moment were refused")
        done = [x for x, r in res if r.get("rc") == 0]
        if h.problems:
            return
        if "empty-trash" in done and "sync" in done:
            # What is in the trash depends on the order.
            h.sync(0)
        elif "sync" in done:
            h.sync(0, res=res[1][1] if res[1][1].get("rc") == 0 else res[0][1], before=before)


CHECKS = {c.id: c() for c in (C20, C17, C32, C21)}
