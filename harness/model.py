"""Reference model, written from the manual and the property statements, not from the implementation."""
import fnmatch
import os
import re
from functools import lru_cache

from world import CONFLICT, is_unsafe_target

# ------------------------------------------------------------------------------------------------
# Exclude patterns
# ------------------------------------------------------------------------------------------------


@lru_cache(maxsize=4096)
def _component(pat):
    """Regex for one component of a pattern. '*' and '?' match within a component, brackets are sets."""
    i, n, out = 0, len(pat), ""
    while i < n:
        c = pat[i]
        i += 1
        if c == "*":
            out += "[^/]*"
        elif c == "?":
            out += "[^/]"
        elif c == "[":
            j = i
            if j < n and pat[j] == "!":
                j += 1
            if j < n and pat[j] == "]":
                j += 1
            while j < n and pat[j] != "]":
                j += 1
            if j >= n:
                out += re.escape("[")
            else:
                body = pat[i:j]
                neg = body.startswith("!")
                if neg:
                    body = body[1:]
                out += "[" + ("^" if neg else "") + re.sub(r"([\\\[\]^&~|])", r"\\\1", body) + "]"
                i = j + 1
        else:
            out += re.escape(c)
    return re.compile(out + r"\Z", re.S)


def _match(pats, comps):
    """Does the component list match the pattern components?"""
    if not pats:
        return not comps
    p = pats[0]
    if p == "**":
        # zero or more components, none of them hidden
        if _match(pats[1:], comps):
            return True
        return bool(comps) and not comps[0].startswith(".") and _match(pats, comps[1:])
    if not comps:
        return False
    if comps[0].startswith(".") and not p.startswith("."):
        return False
    return bool(_component(p).match(comps[0])) and _match(pats[1:], comps[1:])


def pattern_matches(line, path, isdir):
    """Does this line of an exclude file match this path itself?"""
    if re.match(r"\s*#", line):
        return False
    line = line.strip()
    if not line:
        return False
    pats = [c for c in line.split("/") if c != ""]
    if line.endswith("/") and not isdir:
        return False
    if pats[-1:] == ["**"] and not isdir:
        pats.append("*")    # 'd/**' matches everything below d, and d itself if it is a directory
    comps = path.split("/")
    if line.startswith("/"):
        return _match(pats, comps)
    return _match(["**"] + pats, comps)


def excluded(patterns, tree):
    """All paths of the tree (path -> is directory) that are excluded, directly or with a directory."""
    out = set()
    for p in tree:
        comps = p.split("/")
        for k in range(1, len(comps) + 1):
            q = "/".join(comps[:k])
            isdir = True if k < len(comps) else tree[p]
            if any(pattern_matches(l, q, isdir) for l in patterns):
                out.add(p)
                break
    return out


# ------------------------------------------------------------------------------------------------
# Merging
# ------------------------------------------------------------------------------------------------


def parents(path):
    c = path.split("/")
    return ["/".join(c[:k]) for k in range(len(c) - 1, 0, -1)]


def below(path, paths):
    return {p for p in paths if p.startswith(path + "/")}


def isdir(e):
    return e is not None and e[0] == "d"


def mtime(e):
    return e[-1] if e[0] in "fl" else 0


class Expect:
    """What a sync of one client should do, given the state before it."""


def merge(base, L, R, rroot, patterns, others, use_trash=True, was_placeholder=(), shadowed=(), ambiguous=()):
    """base: tree of the client's last sync. L, R: trees found. patterns: of this client; others: those
    registered by the other clients. Entries: ("f", digest, mode, mtime), ("l", target, mtime), ("d",)."""
    E = Expect()
    X = excluded(patterns, {p: isdir(e) for p, e in L.items()})
    place = {p for p, e in L.items() if e[0] == "l" and e[1] == rroot + "/" + p}
    unsafe = {p for p, e in L.items() if e[0] == "l" and p not in place and is_unsafe_target(p, e[1])}
    E.unsafe = unsafe
    E.placeholders = place
    M = {}
    losers = []           # (path, entry)
    E.lsame = {}
    dirs_deleted = set()
    E.deleted_local = set()    # deleted by the user locally: to go from the remote
    E.deleted_remote = set()
    E.changed = set()
    E.conflicts = set()
    keep_local = {}            # excluded files that stay without being synced
    for p in set(base) | set(L) | set(R):
        b, r, l = base.get(p), R.get(p), L.get(p)
        if b is None and p in X and r is not None and r[0] == l[0] != "d" and r[1] == l[1] and mtime(l) == mtime(r):
            M[p] = r        # a copy of the remote file
            E.changed.add(p)
            continue
        if b is None and p in X and not (p in place and r is not None):
            keep_local[p] = l
            if r is not None:
                M[p] = r
            continue
        if p in unsafe or any(q in unsafe for q in parents(p)):
            if b is None and r is None:
                continue
            # Left alone locally; the remote side goes its own way.
            if r is not None:
                M[p] = r
            continue
        if p in place:
            ls = "same" if b is not None else "none"
            l = b if b is not None else None
        elif l is None:
            ls = "del" if b is not None else "none"
        else:
            ls = "new" if b is None else ("same" if l == b else "mod")
        if r is None:
            rs = "del" if b is not None else "none"
        else:
            rs = "new" if b is None else ("same" if r == b else "mod")
        if ls in ("new", "mod") or rs in ("new", "mod"):
            E.changed.add(p)
        if p in X and rs == "del":
            keep_local[p] = L[p]
            continue
        lc, rc = ls in ("new", "mod"), rs in ("new", "mod")
        if lc and rc:
            if l == r:
                M[p] = r
            elif isdir(l) or isdir(r):
                M[p] = l if isdir(l) == isdir(r) else ("type-change",)
            else:
                E.conflicts.add(p)
                if mtime(l) == mtime(r):
                    M[p] = ("tie", l, r)
                elif mtime(l) > mtime(r):
                    M[p] = l
                    losers.append((p, r))
                else:
                    M[p] = r
                    losers.append((p, l))
        elif lc:
            M[p] = l
        elif rc:
            M[p] = r
        elif ls == "del" or rs == "del":
            if ls == "del" and rs != "del":
                E.deleted_local.add(p)
            if rs == "del" and ls != "del":
                E.deleted_remote.add(p)
        elif b is not None:
            M[p] = b
    # A directory stays as long as something in it does that is not part of the deletion.
    stay = set(keep_local) | unsafe
    for p in list(M) + sorted(stay):
        for q in parents(p):
            if q in X and p in keep_local:
                continue
            if q not in M and q not in unsafe and q not in keep_local:
                M[q] = ("d",)
                E.deleted_local.discard(q)
                E.deleted_remote.discard(q)
    # Files that every client excludes go from the remote.
    tree = {p: isdir(e) for p, e in M.items()}
    mine = excluded(patterns, tree)
    gone = set(mine)
    for pats in others:
        gone &= excluded(pats, tree)
    for p in list(M):
        if any(q in gone for q in parents(p)):
            gone.add(p)
    gone &= set(M)
    # An unrelated file of that name is only in the remote directory, so it stays there.
    for p in keep_local:
        if R.get(p) is not None and not isdir(R[p]):
            gone -= {p} | set(parents(p))
    # Of a directory that both sides have on their own, an empty one may stay.
    E.maybe = {p for p in keep_local if isdir(R.get(p)) and p in gone}
    # An excluded directory that the remote side also has may or may not be on record. If the user
    # removes it, nothing in it is at stake.
    E.maybe |= {p for p in ambiguous if p not in L and isdir(R.get(p)) and not below(p, set(M) | stay)}
    # What is gone but not yet recorded by this client (new in this sync) may go one sync later.
    E.M = M
    E.gone = gone
    E.mine = mine
    E.losers = losers
    E.keep_local = keep_local
    E.X = X
    # Trash: the topmost deleted entries that stood for remote files.
    top = {p for p in E.deleted_local if not any(q in E.deleted_local for q in parents(p))}
    E.trash = []
    E.trash_optional = []
    for p in sorted(top):
        tree = {q[len(p) + 1:]: R[q] for q in below(p, R)}
        files = [q for q in ({p} | below(p, R)) if not isdir(R[q])]
        item = (os.path.basename(p), R[p], tree)
        if not use_trash:
            continue
        # An empty directory may count as kept locally or not.
        empty = [q for q in ({p} | below(p, R)) if isdir(R[q]) and not below(q, R)]
        if not files or any(q in shadowed for q in files):
            E.trash_optional.append(item)
        elif any(q in was_placeholder for q in files):
            E.trash.append(item)
        elif empty:
            E.trash_optional.append(item)
    return E


# ------------------------------------------------------------------------------------------------
# Selection of local files
# ------------------------------------------------------------------------------------------------


def select(nodes, sizes, limit, excluded_size, block, afs):
    """nodes: path -> (is directory, priority). sizes: path -> disk usage in the remote directory.
    Returns (directories kept, single files kept, remaining space)."""
    files = [p for p in nodes if not nodes[p][0]]
    dirs = [p for p in nodes if nodes[p][0]]

    def rank(p, prio, size):
        if afs:
            prio = prio / size if size else 0
        return (-prio, p)
    remaining = limit - excluded_size - len(files) * block
    dsize = {d: sum(sizes[p] for p in nodes if p == d or p.startswith(d + "/")) for d in dirs}
    order = sorted(dirs, key=lambda d: rank(d, nodes[d][1], dsize[d]))
    chosen, covered, covered_dirs = set(), set(), set()
    for d in order:
        if d in covered_dirs or dsize[d] > limit:
            continue
        inside = {p for p in nodes if p == d or p.startswith(d + "/")}
        ifiles = {p for p in inside if not nodes[p][0]}
        idirs = inside - ifiles
        new = remaining - dsize[d] + sum(dsize[s] for s in chosen & inside) + len(ifiles - covered) * block
        if new >= 0:
            covered |= ifiles
            covered_dirs |= idirs
            chosen -= idirs
            chosen.add(d)
            remaining = new
    single = set()
    rest = [f for f in files if not any(f.startswith(d + "/") for d in chosen)]
    for f in sorted(rest, key=lambda f: rank(f, nodes[f][1], sizes[f])):
        new = remaining - sizes[f] + block
        if new > 0:
            single.add(f)
            remaining = new
    return chosen, single, remaining
