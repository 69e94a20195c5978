"""A scratch world: clients, a remote directory, user edits, commands and observations.

Everything destructive happens below one scratch directory on /dev/shm, as user nobody.
A plan is plain JSON, so that a failing one can be stored and replayed without Hypothesis.
"""
import hashlib
import os
import re
import shutil
import sqlite3
import stat
import time

from zyg import HarnessError

DIRNAMES = ("d", "d2", "d.x", "D e")    # names used for directories; files have other ones
MODES = [0o644, 0o600, 0o755, 0o640]
PARTIAL = ".zielen-partial"     # what an interrupted copy may leave behind; never synced
CONFLICT = re.compile(r"^(?P<stem>.*)_conflict-\d{8}-\d{6}(?P<num>[^./]*)(?P<ext>(\.[^./]*)?)$")


def content(token, size):
    """Unique, recognisable content: a token repeated up to `size` bytes (never less than the token)."""
    if size == 0:
        return b""
    t = ("<%s>" % token).encode()
    return (t * (size // len(t) + 1))[:max(size, len(t))]


def digest(data):
    return hashlib.md5(data).hexdigest()[:12] + ":" + str(len(data))


def read_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def entry(path):
    """Observable value of one directory entry, not following symlinks."""
    st = os.lstat(path)
    if stat.S_ISLNK(st.st_mode):
        return ("l", os.readlink(path), st.st_mtime_ns)
    if stat.S_ISDIR(st.st_mode):
        return ("d",)
    if stat.S_ISREG(st.st_mode):
        return ("f", digest(read_bytes(path)), stat.S_IMODE(st.st_mode), st.st_mtime_ns)
    return ("o",)


def scan(root, skip=()):
    """rel path -> entry for everything below root. Paths (and what is below them) in skip are left out."""
    out = {}

    def walk(d, rel):
        for name in sorted(os.listdir(d)):
            r = rel + "/" + name if rel else name
            if r in skip or name == PARTIAL:
                continue
            p = d + "/" + name
            e = entry(p)
            out[r] = e
            if e[0] == "d":
                walk(p, r)
    if os.path.isdir(root):
        walk(root, "")
    return out


def rmtree(path):
    """Remove a scratch tree even if it has unwritable directories in it."""
    if not os.path.lexists(path):
        return
    for d, _, _ in os.walk(path):
        try:
            if not os.access(d, os.W_OK | os.X_OK | os.R_OK):
                os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(path, ignore_errors=True)
    if os.path.lexists(path):
        shutil.rmtree(path)


def copy_world(src, dst):
    """Exact copy (symlinks, modes, nanosecond mtimes)."""
    shutil.copytree(src, dst, symlinks=True)


def isdir(path):
    return os.path.isdir(path) and not os.path.islink(path)


def is_unsafe_target(rel, target):
    """Does the symlink at rel (relative to its root) with this target text lead out of the root?"""
    if target.startswith("/"):
        return True
    parts = [] if "/" not in rel else rel.split("/")[:-1]
    for c in target.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if not parts:
                return True
            parts.pop()
        else:
            parts.append(c)
    return False


class Client:
    def __init__(self, i, world, cfg):
        self.i = i
        self.name = "p%s-%d" % (world.tag, i) + (cfg.get("suffix") or "")
        self.L = world.root + "/" + (cfg.get("dir") or "L%d" % i)
        self.xdg = world.root + "/" + (cfg.get("xdg") or "cfg%d" % i)
        self.cfg = dict(cfg)
        self.patterns = list(cfg.get("exclude") or [])
        self.base = {}        # tree as of the last sync: path -> entry
        self.up = False

    @property
    def pdir(self):
        return self.xdg + "/zielen/profiles/" + self.name


class World:
    def __init__(self, ctx, cfgs, remote="R"):
        self.ctx = ctx
        self.z = ctx.z
        self.tag = ctx.tag
        ctx.ncase += 1
        self.root = ctx.scratch + "/w%d" % (ctx.ncase % 1000)
        rmtree(self.root)
        os.makedirs(self.root)
        self.R = self.root + "/" + remote
        self.home = self.root + "/home"
        os.makedirs(self.home)
        os.makedirs(self.R)
        os.makedirs(self.root + "/tpl")
        self.clients = [Client(i, self, c) for i, c in enumerate(cfgs)]
        for c in self.clients:
            os.makedirs(c.L)
        # Things around the directories that symlinks can lead to; no command may touch them.
        self.outside = self.root + "/outside"
        os.makedirs(self.outside + "/sub/d")
        for k, f in enumerate(("o.txt", "a", "sub/b.txt", "sub/d/a")):
            self.put(self.outside + "/" + f, b"outside %d" % k, 0o640, 10 ** 18 + k)
        for k, f in enumerate(("d/a", "d2/b.txt", "d2/a", "d.x/d/c")):
            self.put(self.outside + "/" + f, b"outside too %d" % k, 0o640, 10 ** 18 + k)
        self.put(self.R + "-old/a", b"old", 0o640, 10 ** 18)
        os.symlink("o.txt", self.outside + "/link")
        self.last_ns = 0
        self.clock = None       # nanoseconds that the clock of the program is ahead of the real one
        self.tz = None          # time zone of the commands
        self.ntok = 0
        self.log = []
        self.nsync = 0

    def close(self):
        rmtree(self.root)

    # --- user side -----------------------------------------------------------------------------
    def now(self):
        """A time stamp later than everything before it, for the mtime of a user's edit."""
        t = max(self.time_ns(), self.last_ns + 1000)
        t -= t % 1000
        if t <= self.last_ns:
            t += 1000
        t += 1000
        self.last_ns = t
        return t

    def time_ns(self):
        return time.time_ns() + (self.clock or 0)

    def side(self, s):
        return self.R if s == "R" else self.clients[int(s[1:])].L

    def ok_parent(self, root, path):
        """Can an entry be made at path: all parents are real directories or missing."""
        p = root
        for c in path.split("/")[:-1]:
            p += "/" + c
            if os.path.islink(p):
                return False
            if not os.path.lexists(p):
                return True
            if not os.path.isdir(p):
                return False
        return True

    def put(self, full, data, mode, t):
        os.makedirs(os.path.dirname(full), exist_ok=True)
        tmp = full
        if os.path.exists(full) and not os.access(full, os.W_OK):
            os.chmod(full, 0o600)
        with open(tmp, "wb") as f:
            f.write(data)
        os.chmod(full, mode)
        os.utime(full, ns=(t, t))

    def resolve(self, op):
        """A path given as a number stands for one of the entries that exist on that side."""
        if not isinstance(op[2], int):
            return op
        k = op[0]
        s = "R" if k in ("tie", "same") else op[1]
        tree = scan(self.side(s), skip=(".zielen",))
        if k == "rmph":
            paths = sorted(p for p in tree if self.is_placeholder(s, p))
            return ["rm", s, paths[op[2] % len(paths)]] if paths else None
        kinds = "fld" if k == "rm" else "fl"
        paths = sorted(p for p, e in tree.items() if e[0] in kinds)
        if not paths:
            return None
        op = list(op)
        op[2] = paths[op[2] % len(paths)]
        return op

    def apply(self, op):
        """One user edit. Total: an edit that makes no sense in the current state does nothing.
        Returns a short description of what happened, or None."""
        op = self.resolve(op)
        if op is None:
            return None
        k = op[0]
        if k in ("w", "tie", "same"):
            return self._write(op)
        s, path = op[1], op[2]
        root = self.side(s)
        full = root + "/" + path
        if not os.path.isdir(root) or not self.ok_parent(root, path):
            return None
        if k == "rm":
            if not os.path.lexists(full):
                return None
            if os.path.isdir(full) and not os.path.islink(full):
                rmtree(full)
                return "rmdir"
            os.remove(full)
            return "rm"
        if k == "mkdir":
            if os.path.lexists(full):
                return None
            os.makedirs(full)
            return "mkdir"
        if k == "ln":
            if os.path.isdir(full) and not os.path.islink(full):
                return None
            if os.path.basename(path) in DIRNAMES and not is_unsafe_target(path, op[3].replace("@ROOT@", self.root)):
                return None         # a file where a directory may be: see known findings
            if os.path.lexists(full):
                os.remove(full)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            os.symlink(op[3].replace("@ROOT@", self.root), full)
            t = self.now()
            os.utime(full, ns=(t, t), follow_symlinks=False)
            return "ln"
        if k in ("touch", "chmod"):
            if not os.path.exists(full) or os.path.isdir(full):
                return None
            if not os.path.realpath(full).startswith(self.root + "/"):
                return None
            if os.path.islink(full) and not self.is_placeholder(s, path):
                return None
            if k == "chmod":
                os.chmod(full, op[3])
            t = self.now()
            os.utime(full, ns=(t, t))
            return k
        if k == "mv":
            dst = op[3]
            fdst = root + "/" + dst
            if not os.path.lexists(full) or os.path.lexists(fdst) or not self.ok_parent(root, dst):
                return None
            if isdir(full) != (os.path.basename(dst) in DIRNAMES):
                return None         # a directory where a file was: see known findings
            if (dst + "/").startswith(path + "/"):
                return None
            # Moving onto a path that some record still has would put an old mtime there: a limit of
            # change detection by mtime (see known findings), so the moved files get a new mtime.
            os.makedirs(os.path.dirname(fdst), exist_ok=True)
            os.rename(full, fdst)
            for p in [fdst] + [fdst + "/" + q for q in scan(fdst)] if os.path.isdir(fdst) and not os.path.islink(fdst) else [fdst]:
                if not os.path.isdir(p) or os.path.islink(p):
                    t = self.now()
                    os.utime(p, ns=(t, t), follow_symlinks=False)
            return "mv"
        raise HarnessError("unknown op %r" % (op,))

    def _write(self, op):
        k = op[0]
        if k == "w":
            _, s, path, size, mode, how = op[:6]
            self.ntok += 1
            return self._write1(s, path, content("%d" % self.ntok, size), MODES[mode % 4], how, self.now())
        # Both sides at once: same mtime, with different (tie) or equal (same) content.
        _, c, path, size = op[:4]
        t = self.now()
        self.ntok += 1
        a = content("%dL" % self.ntok, size)
        b = content("%dR" % self.ntok, size) if k == "tie" else a
        x = self._write1("L%d" % c, path, a, 0o644, "replace", t)
        y = self._write1("R", path, b, 0o644, "replace", t)
        return k if x and y else None

    def _write1(self, s, path, data, mode, how, t):
        root = self.side(s)
        full = root + "/" + path
        if not os.path.isdir(root) or not self.ok_parent(root, path):
            return None
        if os.path.isdir(full) and not os.path.islink(full) or os.path.basename(path) in DIRNAMES:
            return None
        if os.path.islink(full):
            if how == "through" and self.is_placeholder(s, path) and os.path.isfile(full):
                self.put(os.path.realpath(full), data, mode, t)
                return "w-through"
            os.remove(full)
        self.put(full, data, mode, t)
        return "w"

    def is_placeholder(self, s, path):
        full = self.side(s) + "/" + path
        return s != "R" and os.path.islink(full) and os.readlink(full) == self.R + "/" + path

    # --- commands ------------------------------------------------------------------------------
    def env(self, c, **kw):
        e = {"XDG_CONFIG_HOME": c.xdg, "HOME": self.home, "COLUMNS": "80"}
        if self.tz is not None:
            e["TZ"] = self.tz
        e.update(kw)
        return e

    def request(self, c, argv, inject=None, env=None, cwd=None, stdin="", patch=None, timeout=40):
        req = dict(op="run", argv=argv, env=self.env(c, **(env or {})), cwd=cwd or self.root,
                   stdin=stdin, timeout=timeout)
        if inject:
            req["inject"] = dict(inject, prefix=inject.get("prefix", self.root))
        if patch or c.cfg.get("patch"):
            req["patch"] = dict(c.cfg.get("patch") or {}, **(patch or {}))
        if self.clock is not None:
            req["clock"] = self.clock
        return req

    def run(self, c, argv, timeout=40, **kw):
        return self.done(c, argv, self.z.call(**self.request(c, argv, timeout=timeout, **kw)), timeout)

    def start(self, c, argv, **kw):
        """Start a command without waiting for it; see done()."""
        return self.z.call(**dict(self.request(c, argv, **kw), op="start"))["pid"]

    def wait(self, c, argv, pid, timeout=40):
        return self.done(c, argv, self.z.call(op="wait", pid=pid, timeout=timeout), timeout)

    def done(self, c, argv, res, timeout):
        if res.get("timeout"):
            res["rc"] = None
            res["err"] = "did not finish within %d s; %s" % (timeout, res.get("err", ""))
        self.log.append((c.i, argv, res.get("rc"), (res.get("err") or "").strip()[-300:]))
        return res

    def api(self, c, fn, *args, patch=None, env=None, timeout=60):
        res = self.z.call(op="api", fn=fn, args=list(args), env=self.env(c, **(env or {})), cwd=self.root,
                          patch=dict(c.cfg.get("patch") or {}, **(patch or {})), clock=self.clock, timeout=timeout)
        if "value" not in res:
            raise ApiError(res.get("err", "")[-1500:])
        return res["value"]

    def records(self, c):
        return self.api(c, "records", c.name, self.R)

    def template(self, c):
        lines = ["LocalDir=" + c.cfg.get("local_spelling", c.L),
                 "RemoteDir=" + c.cfg.get("remote_spelling", self.R),
                 "StorageLimit=" + c.cfg.get("limit", "100MiB")]
        for k, key in (("use_trash", "UseTrash"), ("inflate", "InflatePriority"), ("afs", "AccountForSize")):
            if c.cfg.get(k) is not None:
                lines.append("%s=%s" % (key, "yes" if c.cfg[k] else "no"))
        if c.cfg.get("cleanup") is not None:
            lines.append("TrashCleanupPeriod=%d" % c.cfg["cleanup"])
        lines += c.cfg.get("extra", [])
        return "\n".join(lines) + "\n"

    def init(self, i, add_remote=None, inject=None, args=()):
        c = self.clients[i]
        if add_remote is None:
            add_remote = i > 0
        os.makedirs(c.L, exist_ok=True)
        os.makedirs(self.R, exist_ok=True)
        tpl = self.root + "/tpl/template%d" % i
        with open(tpl, "w") as f:
            f.write(self.template(c))
        argv = ["init", "-t", tpl]
        if c.patterns:
            exc = self.root + "/tpl/exclude%d" % i
            with open(exc, "w") as f:
                f.write("".join(p + "\n" for p in c.patterns))
            argv += ["-e", exc]
        if add_remote:
            argv.append("-a")
        res = self.run(c, argv + list(args) + [c.name], inject=inject)
        if res.get("rc") == 0:
            c.up = True
        return res

    def sync(self, i, **kw):
        self.nsync += 1
        c = self.clients[i]
        return self.run(c, ["sync", c.name], **kw)

    def set_exclude(self, i, patterns):
        c = self.clients[i]
        c.patterns = list(patterns)
        with open(c.pdir + "/exclude", "w") as f:
            f.write("# patterns\n" + "".join(p + "\n" for p in patterns))

    def set_config(self, i, **kw):
        c = self.clients[i]
        c.cfg.update(kw)
        with open(c.pdir + "/config", "w") as f:
            f.write(self.template(c))

    # --- observation ---------------------------------------------------------------------------
    def local(self, i):
        return scan(self.clients[i].L)

    def remote(self):
        return scan(self.R, skip=(".zielen",))

    def trash(self):
        return scan(self.R + "/.zielen/Trash")

    def presented(self, i, loc=None):
        """The local tree as the user reads it: placeholders replaced by what they lead to.
        Symlinks of the user that are not synced (absolute or leading out) are left out."""
        out = {}
        c = self.clients[i]
        for p, e in (loc if loc is not None else self.local(i)).items():
            if e[0] == "l":
                if e[1] == self.R + "/" + p:
                    try:
                        t = entry(e[1])
                    except FileNotFoundError:
                        t = ("dangling",)
                    out[p] = t
                elif is_unsafe_target(p, e[1]):
                    continue
                else:
                    out[p] = e
            else:
                out[p] = e
        return out

    def program_folder(self):
        """What users may have put into the program's folder in the remote directory."""
        return {p: e for p, e in scan(self.R + "/.zielen").items() if p.split("/")[0] == "mine"}

    def surroundings(self, i=None):
        """Everything in the world but the directories that commands of client i may change."""
        skip = {os.path.relpath(self.R, self.root), "tpl"}
        if i is not None:
            c = self.clients[i]
            skip |= {os.path.relpath(c.L, self.root), os.path.relpath(c.pdir, self.root)}
        out = {}
        for p, e in scan(self.root, skip=skip).items():
            if e[0] == "d":
                st = os.lstat(self.root + "/" + p)
                e = ("d", stat.S_IMODE(st.st_mode))
            out[p] = e
        return out

    def freeze(self, skip=("tpl",)):
        """Everything in the world, with databases by their content, so that two moments can be compared."""
        out = {}
        for p, e in scan(self.root, skip=skip).items():
            name = os.path.basename(p)
            if e[0] == "f" and name.endswith((".db-wal", ".db-shm", ".db-journal")):
                continue
            if e[0] == "f" and name.endswith(".db"):
                e = ("db",) + self.dump(self.root + "/" + p)
            elif e[0] == "f" and "/zielen/" in p or "/.zielen/" in p and "/Trash/" not in p:
                e = e[:2]       # whether a file of the program was written again with the same content is no matter
            elif e[0] == "d":
                e = ("d", stat.S_IMODE(os.lstat(self.root + "/" + p).st_mode))
            out[p] = e
        return out

    def dump(self, path):
        """The content of a database, read from a copy of it."""
        tmp = self.root + "/tpl/dump"
        rmtree(tmp)
        os.makedirs(tmp)
        for suffix in ("", "-wal", "-journal"):
            if os.path.exists(path + suffix):
                shutil.copyfile(path + suffix, tmp + "/db" + suffix)
        try:
            con = sqlite3.connect(tmp + "/db")
            try:
                return tuple(sorted(con.iterdump()))
            finally:
                con.close()
        except sqlite3.Error as e:
            return ("unreadable", str(e))

    def changed(self, a, b, ignore=()):
        """What differs between two frozen states, as text."""
        out = []
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p) and p not in ignore:
                x, y = a.get(p), b.get(p)
                if x and y and x[0] == y[0] == "db":
                    x, y = sorted(set(x) - set(y))[:3], sorted(set(y) - set(x))[:3]
                out.append("%s: %s -> %s" % (p, str(x)[:300], str(y)[:300]))
        return out

    def unsafe(self, i):
        return {p: e for p, e in self.local(i).items()
                if e[0] == "l" and e[1] != self.R + "/" + p and is_unsafe_target(p, e[1])}


class ApiError(Exception):
    pass
