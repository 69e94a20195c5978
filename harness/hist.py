"""Runs a plan (a history of edits and commands) in a scratch world and compares with the model.

Problems are collected as (tag, message); each check asserts the tags its property is about.
"""
import os

import model
from model import merge, excluded, isdir, parents
from world import World, CONFLICT, is_unsafe_target, entry


class Problem(Exception):
    """The property is violated on this case."""

    def __init__(self, tag, msg):
        super().__init__("[%s] %s" % (tag, msg))
        self.tag = tag


def eq(a, b):
    """Same observable entry: files with content, mode and mtime, symlinks with target."""
    if a is None or b is None:
        return a is b
    if a[0] != b[0]:
        return False
    if a[0] == "l":
        return a[1] == b[1]
    return tuple(a) == tuple(b)


def show(e):
    return "missing" if e is None else repr(tuple(e))


UNITS = {"B": 1, "KB": 10 ** 3, "MB": 10 ** 6, "GB": 10 ** 9, "KIB": 2 ** 10, "MIB": 2 ** 20, "GIB": 2 ** 30,
         "K": 2 ** 10, "M": 2 ** 20, "G": 2 ** 30}


def limit_bytes(text):
    num = text.rstrip("BKMGIbkmgi ")
    return int(float(num) * UNITS[text[len(num):].strip().upper()])


def digests(*trees):
    return {e[1] for t in trees for e in t.values() if e[0] == "f" and not e[1].endswith(":0")}


class State:
    """What is on disk and in the records at one moment."""

    def __init__(self, w):
        self.L = {c.i: w.local(c.i) for c in w.clients if os.path.isdir(c.L)}
        self.R = w.remote()
        self.T = w.trash()

    def all_digests(self):
        return digests(self.R, self.T, *self.L.values())


class History:
    def __init__(self, ctx, plan):
        self.plan = plan
        self.w = World(ctx, plan["cfg"], remote=plan.get("remote", "R"))
        self.stats = {"syncs": 0, "edits": 0, "conflicts": 0, "deletions": 0, "trashed": 0, "excluded": 0,
                      "placeholders": 0, "copies": 0, "changed": 0, "inits": 0, "links": 0, "again": 0, "kept": 0, "choices": 0, "resets": 0}
        self.problems = []
        self.reg = {}         # client -> patterns registered in the remote directory
        self.wasp = {}        # client -> paths that were placeholders after its last sync
        self.shadowed = {}    # client -> symlinks of the user that may hide a remote file
        self.ambiguous = {}   # client -> excluded directories that the remote directory has, too

    def close(self):
        self.w.close()

    def watch(self, i, run):
        """Run a command of client i and check that nothing around its directories changes."""
        before = self.w.surroundings(i)
        foreign = self.w.program_folder()
        res = run()
        after = self.w.surroundings(i)
        skip = [os.path.relpath(self.w.clients[i].xdg + "/zielen", self.w.root)]
        skip += parents(skip[0] + "/profiles/x")
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p) and p not in skip:
                self.bad("outside", "%s outside the directories changed: %s -> %s" % (
                    p, show(before.get(p)), show(after.get(p))))
        now = self.w.program_folder()
        for p in foreign:
            if foreign[p] != now.get(p):
                self.bad("outside", "foreign %s in the program folder changed: %s -> %s" % (
                    p, show(foreign[p]), show(now.get(p))))
        return res

    def bad(self, tag, msg):
        self.problems.append((tag, msg))

    # -----------------------------------------------------------------------------------------
    def init(self, i):
        w = self.w
        c = w.clients[i]
        before = State(w)
        res = self.watch(i, lambda: w.init(i))
        self.stats["inits"] += 1
        if res.get("rc") != 0 or res.get("exc"):
            self.bad("rc", "init of client %d failed: %s" % (i, (res.get("err") or str(res))[-900:]))
            return res
        self.reg[i] = list(c.patterns)
        self.after_init(i, before)
        return res

    def after_init(self, i, before):
        w = self.w
        c = w.clients[i]
        after = State(w)
        L0, L1, R0, R1 = before.L[i], after.L[i], before.R, after.R
        X = excluded(c.patterns, {p: isdir(e) for p, e in L0.items()})
        unsafe = {p for p, e in L0.items() if e[0] == "l" and is_unsafe_target(p, e[1])}
        exp = dict(R0)
        if i == 0:
            exp = {p: e for p, e in L0.items() if p not in X and p not in unsafe}
        for p in sorted(set(exp) | set(R1)):
            if not eq(exp.get(p), R1.get(p)):
                self.bad("init-remote", "after init, remote %s: expected %s, found %s" % (
                    p, show(exp.get(p)), show(R1.get(p))))
        loc = {p: e for p, e in exp.items()}
        pres = w.presented(i, L1)
        for p in sorted(set(loc) | set(pres)):
            if i == 0 and p in X:
                if not eq(L0.get(p), L1.get(p)) :
                    self.bad("init-excluded", "excluded %s changed in init: %s -> %s" % (
                        p, show(L0.get(p)), show(L1.get(p))))
                continue
            e = loc.get(p)
            if e is not None and e[0] == "l" and is_unsafe_target(p, e[1]):
                continue
            if not eq(e, pres.get(p)):
                self.bad("init-local", "after init, local %s reads %s, expected %s" % (
                    p, show(pres.get(p)), show(e)))
            elif e[0] != "d" and L1[p][0] != "l":
                self.bad("init-local", "after init, local %s is not a symlink" % p)
        for p in unsafe:
            if not eq(L0[p], L1.get(p)):
                self.bad("init-unsafe", "symlink %s of the user changed in init" % p)
        if i == 0:
            c.base = {p: e for p, e in R1.items()}
        else:
            c.base = {p: e for p, e in R1.items() if not (e[0] == "l" and is_unsafe_target(p, e[1]))}
        self.wasp[i] = {p for p, e in L1.items() if e[0] == "l" and e[1] == w.R + "/" + p}
        self.shadowed[i] = {p for p, e in L1.items() if e[0] == "l" and p not in self.wasp[i]
                            and is_unsafe_target(p, e[1])}

    # -----------------------------------------------------------------------------------------
    def sync(self, i, expect_ok=True, res=None, before=None):
        """Sync client i and compare with the model. Returns (expectation, before, after)."""
        w = self.w
        c = w.clients[i]
        before = before or State(w)
        E = self.expect(i, before)
        if res is None:
            res = self.watch(i, lambda: w.sync(i))
        self.stats["syncs"] += 1
        if res.get("rc") != 0 or res.get("exc") or res.get("signal"):
            self.bad("rc", "sync of client %d failed: %s" % (i, (res.get("err") or str(res))[-900:]))
            return E, before, None
        self.reg[i] = list(c.patterns)
        after = State(w)
        self.compare(i, E, before, after)
        return E, before, after

    def expect(self, i, before):
        c = self.w.clients[i]
        others = [p for j, p in self.reg.items() if j != i]
        return merge(c.base, before.L[i], before.R, self.w.R, c.patterns, others,
                     use_trash=c.cfg.get("use_trash") is not False, was_placeholder=self.wasp.get(i, ()),
                     shadowed=self.shadowed.get(i, ()), ambiguous=self.ambiguous.get(i, ()))

    def compare(self, i, E, before, after):
        w = self.w
        c = w.clients[i]
        L0, L1, R0, R1 = before.L[i], after.L[i], before.R, after.R
        who = "sync of client %d: " % i
        losers = list(E.losers)
        exp = {}
        for p, e in E.M.items():
            if e[0] == "tie":
                first = R1.get(p) if p not in E.gone else L1.get(p)
                win = e[1] if eq(first, e[1]) else e[2]
                losers.append((p, e[2] if win is e[1] else e[1]))
                e = win
            exp[p] = e
        expR = {p: e for p, e in exp.items() if p not in E.gone}
        # conflict copies
        copies = {}
        extra = [p for p in R1 if p not in expR]
        for p, e in losers:
            d = os.path.dirname(p)
            found = [q for q in extra if q not in copies and os.path.dirname(q) == d
                     and "conflict" in os.path.basename(q) and eq(R1[q], e)]
            if p in E.gone or excluded(c.patterns, {p: False}):
                # conflict on an excluded file: the copy may itself be excluded
                found2 = [q for q in L1 if q not in copies and os.path.dirname(q) == d
                          and "conflict" in os.path.basename(q) and eq(L1[q], e) and q not in found]
                found = found + found2
            if not found:
                self.bad("conflict-copy", who + "conflict on %s: no copy of the losing version %s with 'conflict' "
                         "in its name" % (p, show(e)))
            else:
                copies[found[0]] = e
        for p in sorted(set(expR) | set(R1)):
            a, b = expR.get(p), R1.get(p)
            if p in copies or p in E.maybe:
                continue
            if a is None:
                tag = "remote-extra"
                if CONFLICT.match(p) and p not in R0 and p not in L0:
                    tag = "conflict-spurious"
                elif p in E.deleted_local or p in E.deleted_remote:
                    tag = "deleted-stays"
                elif p in E.gone:
                    tag = "excluded-stays-in-remote"
                elif p in E.keep_local:
                    tag = "excluded-uploaded"
                elif p in before.L[i] and p in E.unsafe:
                    tag = "unsafe-uploaded"
                self.bad(tag, who + "remote %s should not be there: %s" % (p, show(b)))
            elif b is None:
                tag = "remote-missing"
                if p in R0 and p in c.base and p not in E.changed:
                    tag = "remote-lost-unchanged"
                self.bad(tag, who + "remote %s is missing, expected %s" % (p, show(a)))
            elif not eq(a, b):
                self.bad("conflict-winner" if p in E.conflicts else "remote-entry",
                         who + "remote %s: expected %s, found %s" % (p, show(a), show(b)))
        # local side
        pres = w.presented(i, L1)
        expP = dict(exp)
        for p in list(expP):
            if p in E.unsafe or any(q in E.unsafe for q in parents(p)):
                del expP[p]
        for p, e in E.keep_local.items():
            expP[p] = e
        for p, e in copies.items():
            expP[p] = e
        for p in sorted(set(expP) | set(pres)):
            a, b = expP.get(p), pres.get(p)
            if p in E.maybe:
                continue
            if a is not None and a[0] == "l" and is_unsafe_target(p, a[1]):
                continue
            if p in E.keep_local:
                if not eq(L0[p], L1.get(p)) and not (L0[p][0] == "l" and eq(b, a)):
                    self.bad("excluded-altered", who + "excluded local %s: was %s, is %s" % (
                        p, show(L0[p]), show(L1.get(p))))
                continue
            if a is None:
                tag = "local-extra"
                if p in E.deleted_local or p in E.deleted_remote:
                    tag = "deleted-stays"
                elif CONFLICT.match(p) and p not in R0 and p not in L0:
                    tag = "conflict-spurious"
                self.bad(tag, who + "local %s should not be there: %s" % (p, show(b)))
            elif b is None:
                self.bad("local-missing", who + "local %s is missing, expected %s" % (p, show(a)))
            elif not eq(a, b):
                tag = "local-entry"
                if p in E.conflicts:
                    tag = "conflict-winner"
                elif b[0] == "dangling":
                    tag = "local-dangling"
                self.bad(tag, who + "local %s reads %s, expected %s" % (p, show(b), show(a)))
            elif p in E.mine and a[0] == "f" and L1[p][0] == "l":
                self.bad("excluded-not-regular", who + "excluded %s is still a symlink into the remote" % p)
        for p in E.unsafe:
            if not eq(L0[p], L1.get(p)):
                self.bad("unsafe-altered", who + "symlink %s of the user: was %s, is %s" % (
                    p, show(L0[p]), show(L1.get(p))))
        self.compare_trash(who, E, before, after)
        # conservation
        allowed = {c.base[p][1] for p in c.base if c.base[p][0] == "f" and (
            p in E.changed or p in E.deleted_local or p in E.deleted_remote)}
        lost = before.all_digests() - after.all_digests() - allowed
        if lost:
            self.bad("content-lost", who + "content lost: " + ", ".join(
                "%s (was at %s)" % (d, self.where(before, d)) for d in sorted(lost)))
        # bookkeeping for the next sync
        c.base = {p: R1[p] for p in expR if p in R1}
        c.base.update({p: R1[p] for p in copies if p in R1})
        for p in E.keep_local:
            c.base.pop(p, None)
        self.ambiguous[i] = {p for p, e in E.keep_local.items() if e[0] == "d" and p in R1}
        self.wasp[i] = {p for p, e in L1.items() if e[0] == "l" and e[1] == w.R + "/" + p}
        self.shadowed[i] = {p for p, e in L1.items() if e[0] == "l" and p not in self.wasp[i]
                            and is_unsafe_target(p, e[1])}
        st = self.stats
        st["conflicts"] += len(losers)
        st["deletions"] += len(E.deleted_local) + len(E.deleted_remote)
        st["trashed"] += len(E.trash)
        st["excluded"] += len(E.mine) + len(E.keep_local)
        st["changed"] += len(E.changed)
        st["placeholders"] += len(self.wasp[i])
        st["copies"] += sum(1 for p, e in L1.items() if e[0] == "f" and p in R1)

    def where(self, state, d):
        out = []
        for name, t in [("remote", state.R), ("trash", state.T)] + [("local%d" % k, v) for k, v in state.L.items()]:
            out += ["%s:%s" % (name, p) for p, e in t.items() if e[0] == "f" and e[1] == d]
        return " ".join(out)

    def compare_trash(self, who, E, before, after):
        T0, T1 = before.T, after.T
        new_top = {p for p in T1 if "/" not in p and p not in T0}
        for p in sorted(T0):
            if not eq(T0[p], T1.get(p)):
                # entries of this test world are never old enough to be cleaned up
                self.bad("trash-old", who + "trash entry %s was %s, is %s" % (p, show(T0[p]), show(T1.get(p))))

        def matches(name, item):
            base, top, tree = item
            t = {q[len(name) + 1:]: e for q, e in T1.items() if q.startswith(name + "/")}
            if top[0] == "f":
                # trashing counts from now, so the mtime of the entry itself changes
                if T1[name][0] != "f" or T1[name][1:3] != top[1:3]:
                    return False
            elif not eq(T1[name], top):
                return False
            return set(t) == set(tree) and all(eq(t[q], tree[q]) for q in t)
        for item in E.trash:
            found = [n for n in sorted(new_top) if matches(n, item)]
            if not found:
                self.bad("trash-missing", who + "deleted placeholder %s did not go to the trash unaltered" % item[0])
            else:
                # prefer the one with the most similar name
                stem = os.path.splitext(item[0])[0]
                best = [n for n in found if n == item[0]] or [n for n in found if n.startswith(stem)] or found
                if not best[0].startswith(stem):
                    self.bad("trash-name", who + "%s is in the trash as %s" % (item[0], best[0]))
                new_top.discard(best[0])
        for item in E.trash_optional:
            found = [n for n in sorted(new_top) if matches(n, item)]
            if found:
                new_top.discard(found[0])
        for n in sorted(new_top):
            self.bad("trash-extra", who + "unexpected trash entry %s" % n)

    # -----------------------------------------------------------------------------------------
    def select(self, i):
        """Sync and check which files are kept locally (limit and priorities)."""
        w = self.w
        c = w.clients[i]
        if not c.up:
            return
        rec0 = w.records(c)["local"]
        E, before, after = self.sync(i)
        if after is None or self.problems:
            return
        rec = w.records(c)["local"]
        L, R = after.L[i], after.R
        limit = limit_bytes(c.cfg["limit"])
        block = os.stat(c.L).st_blksize

        def usage(root, p):
            return os.lstat(root + "/" + p).st_blocks * 512
        X = excluded(c.patterns, {p: isdir(e) for p, e in L.items()})
        excluded_size = sum(usage(c.L, p) for p in X if L[p][0] == "f")
        # C06
        kept = [p for p, e in L.items() if e[0] == "f" and p in R and p not in X]
        placed = [p for p, e in L.items() if e[0] == "l" and e[1] == w.R + "/" + p]
        used = sum(usage(c.L, p) for p in kept)
        self.stats["kept"] += len(kept)
        if used and used + len(placed) * block + excluded_size > limit:
            self.bad("limit", "sync of client %d keeps %d bytes in %d files, %d placeholders of %d bytes and %d bytes of "
                     "excluded files with a limit of %d: %s" % (i, used, len(kept), len(placed), block, excluded_size,
                                                                limit, sorted(kept)))
        # C07: the recorded priorities are the ones they should be ...
        files = {p for p, v in rec.items() if not v[0]}
        copies = {p for p in rec if CONFLICT.match(p)}
        new_local = {p for p in E.changed if p not in rec0 and p in before.L[i] and p in files}
        top = max([v[1] for p, v in rec0.items() if not v[0] and p not in E.deleted_local | E.deleted_remote]
                  or [0])
        top_all = max([v[1] for p, v in rec0.items() if not v[0]] or [0])
        inflate = c.cfg.get("inflate") is not False
        for p in sorted(files - copies - E.conflicts - E.gone):
            if p in rec0 and not rec0[p][0]:
                if abs(rec[p][1] - rec0[p][1]) > 1e-9 * max(1, rec0[p][1]):
                    self.bad("priority", "sync of client %d changed the priority of %s from %r to %r" % (
                        i, p, rec0[p][1], rec[p][1]))
            elif p in new_local:
                want = [top, top_all] if inflate else [0]
                if not any(abs(rec[p][1] - x) <= 1e-9 * max(1, x) for x in want):
                    self.bad("priority", "new local file %s of client %d has priority %r, expected one of %r" % (
                        p, i, rec[p][1], want))
            elif p in E.changed and p not in rec0 and p not in before.L[i] and rec[p][1] != 0:
                self.bad("priority", "new remote file %s of client %d has priority %r, expected 0" % (
                    p, i, rec[p][1]))
        # ... and the choice follows from them.
        if X or any(p in E.gone for p in E.M):
            return
        nodes = {p: (v[0], v[1]) for p, v in rec.items()}
        if set(nodes) - set(R):
            return          # paths of symlinks that are not synced
        sizes = {p: usage(w.R, p) for p in nodes}
        dirs, single, _ = model.select(nodes, sizes, limit, 0, block, c.cfg.get("afs") is not False)
        want = {p for p in files if p in single or any(p.startswith(d + "/") for d in dirs)}
        got = {p for p in files if p in L and not (L[p][0] == "l" and L[p][1] == w.R + "/" + p)}
        link = {p for p in files if R[p][0] == "l" or p in E.unsafe or any(q in E.unsafe for q in parents(p))}
        if (want ^ got) - link:
            self.bad("choice", "client %d with limit %d keeps %s instead of %s; priorities and sizes: %s" % (
                i, limit, sorted(got - link), sorted(want - link),
                {p: (nodes[p][1], sizes[p]) for p in sorted(nodes)}))
        self.stats["choices"] += 1 if want - link and files - want - link else 0

    def again(self, i):
        """Sync again right after a sync: nothing changes."""
        w = self.w
        c = w.clients[i]
        if not c.up:
            return
        E = self.sync(i)[0]
        if E.gone and not self.problems:
            # Files left the sync because they are excluded, which can free space for others.
            self.sync(i)
        if self.problems:
            return
        before = State(w)
        rec0 = w.records(c)
        res = self.watch(i, lambda: w.sync(i))
        self.stats["again"] += 1
        if res.get("rc") != 0 or res.get("exc") or res.get("signal"):
            self.bad("again", "a second sync of client %d failed: %s" % (i, (res.get("err") or str(res))[-900:]))
            return
        after = State(w)
        rec1 = w.records(c)
        for name, a, b in (("local", before.L[i], after.L[i]), ("remote", before.R, after.R),
                           ("trash", before.T, after.T)):
            for p in sorted(set(a) | set(b)):
                if a.get(p) != b.get(p):
                    self.bad("again", "a second sync of client %d changed %s %s: %s -> %s" % (
                        i, name, p, show(a.get(p)), show(b.get(p))))
        a, b = rec0["local"], rec1["local"]
        for p in sorted(set(a) | set(b)):
            if p in a and p in b and a[p][0] and b[p][0] and a[p][1] == b[p][1]:
                continue        # the flag of a directory that has lost its content may be set late
            if a.get(p) != b.get(p):
                self.bad("again", "a second sync of client %d changed the record of %s: %s -> %s" % (
                    i, p, a.get(p), b.get(p)))
        if set(rec0["remote"]) != set(rec1["remote"]):
            self.bad("again", "a second sync of client %d changed the paths of the remote record: %s" % (
                i, sorted(set(rec0["remote"]) ^ set(rec1["remote"]))))
        self.wasp[i] = {p for p, e in after.L[i].items() if e[0] == "l" and e[1] == w.R + "/" + p}

    def converge(self):
        """All clients have synced twice in turn: every local directory presents the remote directory."""
        w = self.w
        R = w.remote()
        # A directory that was deleted elsewhere stays where it holds a link that leads out, and may come back.
        holds = {q for c in w.clients if c.up for p in w.unsafe(c.i) for q in parents(p)}
        for c in w.clients:
            if not c.up or c.patterns:
                continue
            P = w.presented(c.i)
            unsafe = w.unsafe(c.i)
            for p in sorted(set(R) | set(P)):
                if p in holds or p in unsafe or any(q in unsafe for q in parents(p)):
                    continue
                a, b = R.get(p), P.get(p)
                if a is not None and a[0] == "l" and is_unsafe_target(p, a[1]):
                    continue
                if not eq(a, b):
                    self.bad("converge", "after all clients synced twice, %s is %s in the remote directory and reads "
                             "%s at client %d" % (p, show(a), show(b), c.i))

    # -----------------------------------------------------------------------------------------
    def expect_reset(self, i, before):
        """What the local directory holds after a reset that retrieves files.
        Returns (tree, losers, either, optional): losers are versions that get a conflict name, either are paths
        for which both versions stay, optional are versions that may get a conflict name."""
        w = self.w
        c = w.clients[i]
        L, R, base = before.L[i], before.R, c.base
        X = excluded(c.patterns, {p: isdir(e) for p, e in L.items()})
        place = {p for p, e in L.items() if e[0] == "l" and (e[1] + "/").startswith(w.R + "/")}
        exp, losers, either = {}, [], {}
        optional = []
        for p in set(L) | set(R):
            l, r = L.get(p), R.get(p)
            if p in place:
                l = None
            if r is None and l is None:
                continue
            if r is None or l is None or (isdir(l) and isdir(r)):
                exp[p] = l if r is None else r
            elif eq(l, r):
                exp[p] = r
            elif l[0] == "l" and is_unsafe_target(p, l[1]):
                exp[p] = l
                losers.append((p, r))
            else:
                b = base.get(p)
                lm, rm = not eq(l, b), not eq(r, b)
                if b is not None and lm != rm:
                    exp[p] = l if lm else r
                    if p in X and lm:
                        optional.append((p, r))
                elif b is not None and p not in X and model.mtime(l) != model.mtime(r):
                    exp[p] = l if model.mtime(l) > model.mtime(r) else r
                    losers.append((p, r if exp[p] is l else l))
                elif l[:2] == r[:2]:
                    exp[p] = r      # the same file with other times or permissions
                else:
                    either[p] = (l, r)
        return exp, losers, either, optional

    def reset(self, i, opts, res=None, before=None):
        w = self.w
        c = w.clients[i]
        keep, none = "k" in opts, "n" in opts
        before = before or State(w)
        exp, losers, either, optional = self.expect_reset(i, before)
        argv = ["reset"] + (["-k"] if keep else []) + (["-n"] if none else []) + [c.name]
        if res is None:
            res = self.watch(i, lambda: w.run(c, argv))
        if res.get("rc") != 0 or res.get("exc") or res.get("signal"):
            self.bad("rc", "reset of client %d failed: %s" % (i, (res.get("err") or str(res))[-900:]))
            return
        self.stats["resets"] += 1
        after = State(w)
        L0, L1, R0, R1 = before.L[i], after.L[i], before.R, after.R
        who = "reset of client %d%s: " % (i, " with " + opts if opts else "")
        if os.path.lexists(c.pdir):
            self.bad("reset-profile", who + "the profile is still there")
        for p, e in L1.items():
            if e[0] == "l" and (e[1] + "/").startswith(w.R + "/"):
                self.bad("reset-placeholder", who + "%s is still a symlink into the remote directory" % p)
        if none:
            for p in sorted(set(L0) | set(L1)):
                want = L0.get(p)
                if want is not None and want[0] == "l" and (want[1] + "/").startswith(w.R + "/"):
                    want = None
                if not eq(want, L1.get(p)):
                    self.bad("reset-local", who + "local %s was %s, is %s" % (p, show(L0.get(p)), show(L1.get(p))))
            for p in sorted(set(R0) | set(R1)):
                if not eq(R0.get(p), R1.get(p)):
                    self.bad("reset-remote", who + "remote %s was %s, is %s" % (p, show(R0.get(p)), show(R1.get(p))))
        else:
            for p, (l, r) in either.items():
                win = l if eq(L1.get(p), l) else r
                exp[p] = win
                losers.append((p, l if win is r else r))
            extra = [p for p in L1 if p not in exp]
            for p, e in losers + optional:
                found = [q for q in extra if os.path.dirname(q) == os.path.dirname(p)
                         and "conflict" in os.path.basename(q) and eq(L1[q], e)]
                if not found and (p, e) in optional:
                    continue
                if not found:
                    self.bad("reset-local", who + "the other version %s of %s is not there under a name with "
                             "'conflict'" % (show(e), p))
                else:
                    extra.remove(found[0])
                    exp[found[0]] = e
            for p in sorted(set(exp) | set(L1)):
                if not eq(exp.get(p), L1.get(p)):
                    self.bad("reset-local", who + "local %s: expected %s, found %s" % (
                        p, show(exp.get(p)), show(L1.get(p))))
            lost = before.all_digests() - digests(before.T) - after.all_digests() - {
                c.base[p][1] for p in c.base if c.base[p][0] == "f" and not eq(exp.get(p), c.base[p])}
            if lost:
                self.bad("content-lost", who + "content lost: " + ", ".join(
                    "%s (was at %s)" % (d, self.where(before, d)) for d in sorted(lost)))
            if not keep and os.path.isdir(w.R) and os.listdir(w.R):
                self.bad("reset-remote", who + "the remote directory still has %s" % sorted(os.listdir(w.R))[:9])
            if keep:
                for p in sorted(R0):
                    l = L0.get(p)
                    if p not in R1 and not any(eq(R1[q], R0[p]) and "conflict" in q for q in R1 if R1[q][0] != "d"):
                        self.bad("reset-remote", who + "remote %s is gone" % p)
                    elif p in R1 and not (eq(R1[p], R0[p]) or eq(R1[p], exp.get(p))):
                        self.bad("reset-remote", who + "remote %s was %s, is %s" % (p, show(R0[p]), show(R1[p])))
                new = digests(R1) - digests(R0) - digests(exp)
                if new:
                    self.bad("reset-remote", who + "new content in the remote directory: %s" % new)
                for p, e in before.T.items():
                    if not eq(e, after.T.get(p)):
                        self.bad("reset-remote", who + "trash entry %s was %s, is %s" % (p, show(e), show(after.T.get(p))))
        c.up = False
        self.reg.pop(i, None)
        c.base = {}

    def step(self, op):
        k = op[0]
        if k == "reset":
            return self.reset(op[1], op[2]) if self.w.clients[op[1]].up else None
        if k == "sync":
            return self.sync(op[1]) if self.w.clients[op[1]].up else None
        if k == "init":
            return self.init(op[1])
        if k == "excl":
            if self.w.clients[op[1]].up:
                self.w.set_exclude(op[1], op[2])
            return
        if k == "cfg":
            if self.w.clients[op[1]].up:
                self.w.set_config(op[1], **op[2])
            return
        if k == "prio":
            c = self.w.clients[op[1]]
            if c.up:
                known = sorted(p for p, e in c.base.items() if e[0] != "d")
                self.w.api(c, "bump", c.name, [
                    [n, [known[p % len(known)] if isinstance(p, int) else p for p in ps
                         if known or not isinstance(p, int)]] for n, ps in op[2]])
            return
        if k == "again":
            return self.again(op[1])
        if k == "select":
            return self.select(op[1])
        if k == "converge":
            return self.converge()
        if k == "mine":
            d = self.w.R + "/.zielen/mine"
            if os.path.isdir(os.path.dirname(d)):
                self.w.put(d + "/x", b"mine", 0o600, self.w.now())
            return
        what = self.w.apply(op)
        if what:
            self.stats["edits"] += 1
            if what == "ln":
                self.stats["links"] += 1

    def run(self, until_problem=True):
        for op in self.plan["steps"]:
            self.step(op)
            if self.problems and until_problem:
                break
        return self.problems
