"""Functions that run in a forked child of the zygote, on the classes of the program under test.

Only interfaces that the repository's own tests or commands use are called here.
"""
import os
import sys


def patch(spec):
    """Controlled changes of the environment the program runs in."""
    if "sys_prefix" in spec:
        sys.prefix = spec["sys_prefix"]
    if "uid" in spec:
        other_user(spec["uid"])
    if "hash_bits" in spec:
        _short_hash(spec["hash_bits"], spec.get("hash_table") or {})
    if "space" in spec:
        _space(spec["space"])


def _space(free):
    """The filesystems of these directories have so many bytes left."""
    real = os.statvfs

    def statvfs(path):
        r = real(path)
        at = os.path.realpath(path) if isinstance(path, (str, bytes)) else os.readlink("/proc/self/fd/%d" % path)
        at = os.fsdecode(at) + "/"
        for prefix, n in free.items():
            if at.startswith(prefix + "/"):
                v = list(r)
                # Some of the free blocks are reserved for root, and the preferred size for reading is a different one.
                v[0], v[4] = 1 << 20, n // r.f_frsize
                v[3] = v[4] + 50000
                v[2] = max(v[2], v[3])
                return os.statvfs_result(v)
        return r
    os.statvfs = os.fstatvfs = statvfs


def other_user(uid):
    """Go on as the user with this ID, in a user namespace of its own."""
    import ctypes
    me = os.getuid()
    libc = ctypes.CDLL(None, use_errno=True)
    if libc.unshare(0x10000000) != 0:
        raise SystemExit(77)
    try:
        with open("/proc/self/uid_map", "w") as f:
            f.write("%d %d 1" % (uid, me))
    except OSError:
        raise SystemExit(77)
    assert os.getuid() == uid


def profile(name):
    from zielen.profile import Profile
    return Profile(name)


def read_configs(name, path, texts):
    """What the settings of a profile are after each of these config files was put in place (None: left as it is)."""
    from zielen.exceptions import ProgramError
    p = profile(name)
    out = []
    for text in texts:
        if text is not None:
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(text)
        try:
            p.read()
            out.append({
                "LocalDir": p.local_path, "RemoteDir": p.remote_path, "StorageLimit": p.storage_limit,
                "SyncInterval": p.sync_interval, "PriorityHalfLife": p.priority_half_life, "UseTrash": p.use_trash,
                "TrashCleanupPeriod": p.cleanup_period, "InflatePriority": p.inflate_priority,
                "AccountForSize": p.account_for_size})
        except ProgramError as e:
            out.append({"refused": [str(x) for x in e.args]})
        except Exception as e:
            out.append({"crash": repr(e)})
    return out


def store_times(name, times):
    """Record moments in one time zone and read them back in another one."""
    import time

    def zone(z):
        os.environ.pop("TZ", None)
        if z is not None:
            os.environ["TZ"] = z
        time.tzset()
    out = []
    for za, zb, t, u in times:
        zone(za)
        p = profile(name)
        p.read()
        p.last_sync = t
        p.last_adjust = u
        p.write()
        zone(zb)
        q = profile(name)
        q.read()
        out.append([q.last_sync, q.last_adjust])
    return out


def bump(name, increments):
    """Raise priorities of files, as the daemon does. increments: list of (amount, [paths])."""
    p = profile(name)
    p.read()
    for amount, paths in increments:
        p.increment(paths, amount)
    p.write()


def records(name, remote_path):
    """What both databases record."""
    from zielen.userdata import RemoteSyncDir
    p = profile(name)
    p.read()
    r = RemoteSyncDir(remote_path)
    return {
        "local": {k: [bool(v.directory), v.priority, bool(v.local)] for k, v in p.get_paths().items()},
        "remote": {k: [bool(v.directory), v.lastsync] for k, v in r.get_paths().items()},
        "last_sync": p.last_sync, "status": p.status}


def _short_hash(bits, pairs):
    """Make different paths get the same identifiers, as if their hashes collided.

    Every hash that is computed of more than nothing has only `bits` bits, and each key of pairs gets the
    hash of its value."""
    import hashlib
    pairs = {k.encode(): v.encode() for k, v in pairs.items()}

    def wrap(name):
        real = getattr(hashlib, name)

        class Short:
            def __init__(self, data=b"", **kw):
                self.data = bytes(data)
                self.kw = kw

            def update(self, data):
                self.data += bytes(data)

            def _h(self):
                data = pairs.get(self.data, self.data)
                if bits:
                    n = int.from_bytes(real(data).digest()[:4], "big") % (2 ** bits)
                    data = b"\0%d" % n
                return real(data, **self.kw)

            def digest(self, *a):
                return self._h().digest(*a)

            def hexdigest(self, *a):
                return self._h().hexdigest(*a)

            @property
            def digest_size(self):
                return real().digest_size

            @property
            def block_size(self):
                return real().block_size

            @property
            def name(self):
                return name

            def copy(self):
                return Short(self.data, **self.kw)
        setattr(hashlib, name, Short)
    for name in ("sha256", "sha1", "md5", "blake2b", "sha512"):
        wrap(name)


def db_ops(kind, path, ops):
    """Run operations on one of the two databases; returns one result per operation."""
    import os
    import time
    from zielen.profile import ProfileDBFile
    from zielen.userdata import RemoteDBFile
    cls = ProfileDBFile if kind == "local" else RemoteDBFile
    db = cls(path)
    if not os.path.exists(path):
        db.create()
    form = {"list": list, "set": set, "gen": lambda x: (y for y in x), "tuple": tuple}
    dump = lambda d: {k: [float(x) if not isinstance(x, bool) else x for x in v] for k, v in d.items()}
    out = []
    for op in ops:
        k, a, f = op["op"], op, form[op.get("form", "list")]
        r = None
        if k == "add":
            t0 = time.time()
            if kind == "local":
                db.add_paths(f(a["files"]), f(a["dirs"]), **a["kw"])
            else:
                db.add_paths(f(a["files"]), f(a["dirs"]))
            r = [t0, time.time()]
        elif k == "infl":
            db.add_inflated(f(a["files"]), f(a["dirs"]))
        elif k == "upd":
            db.update_paths(f(a["paths"]), **a["kw"])
        elif k == "rm":
            db.rm_paths(f(a["paths"]))
        elif k == "inc":
            db.increment(f(a["paths"]), a["n"])
        elif k == "adj":
            db.adjust_all(a["n"])
        elif k == "info":
            r = db.get_path_info(a["path"])
            r = None if r is None else [float(x) if not isinstance(x, bool) else x for x in r]
        elif k == "paths":
            r = dump(db.get_paths(**a["kw"]))
        elif k == "commit":
            db.commit()
        elif k == "reopen":
            db.close()
            db = cls(path)
        out.append([r, dump(db.get_paths())])
    db.close()
    return out


def daemon(name, path, now, limit):
    """The daemon of a profile, in virtual time; see sut_daemon.py."""
    import sut_daemon
    import __main__
    sut_daemon.run(name, path, now, limit, __main__.arm)


def daemon_records(name):
    p = profile(name)
    p.read()
    return {"local": {k: [bool(v.directory), v.priority] for k, v in p.get_paths().items()},
            "last_sync": p.last_sync, "last_adjust": p.last_adjust, "status": p.status}
