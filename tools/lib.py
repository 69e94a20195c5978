"""Helper of the demonstrations: runs zielen from the current directory in a scratch directory."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.getcwd()
BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
ROOT = os.path.realpath(tempfile.mkdtemp(prefix="zdemo", dir=BASE))
atexit.register(shutil.rmtree, ROOT, ignore_errors=True)
NAME = os.path.basename(ROOT)
MAIN = ("import sys, warnings; warnings.simplefilter('ignore'); sys.path.insert(0, %r); sys.dont_write_bytecode = True; "
        "import zielen.cli; sys.exit(zielen.cli.main())" % REPO)


def p(*parts):
    return os.path.join(ROOT, *parts)


def write(path, data, mtime=None, mode=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    with open(path, "w") as f:
        f.write(data)
    if mode is not None:
        os.chmod(path, mode)
    if mtime is not None:
        os.utime(path, (mtime, mtime))


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return None


def env(client=0, **kw):
    e = dict(os.environ, XDG_CONFIG_HOME=p("cfg%d" % client), HOME=p("home"), PYTHONDONTWRITEBYTECODE="1",
             LANG="C.UTF-8", LC_ALL="C.UTF-8")
    e.update(kw)
    os.makedirs(p("home"), exist_ok=True)
    return e


def zielen(*args, client=0, ok=True, stdin="", **kw):
    r = subprocess.run([sys.executable, "-c", MAIN] + list(args), env=env(client, **kw), cwd=REPO, input=stdin,
                       universal_newlines=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if ok and r.returncode:
        print("command %r failed: %s" % (args, r.stdout[-1500:]))
        sys.exit(1)
    return r


def init(client=0, add=False, limit="100MiB", options="", exclude=None, **kw):
    local, remote = p("L%d" % client), p("R")
    os.makedirs(local, exist_ok=True)
    os.makedirs(remote, exist_ok=True)
    write(p("template"), "LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\n%s" % (local, remote, limit, options))
    args = ["init", "-t", p("template")] + (["-a"] if add else [])
    if exclude is not None:
        write(p("exc"), exclude)
        args += ["-e", p("exc")]
    return zielen(*(args + [NAME + "-%d" % client]), client=client, **kw)


def sync(client=0, **kw):
    return zielen("sync", NAME + "-%d" % client, client=client, **kw)


def profile_dir(client=0):
    return p("cfg%d" % client, "zielen", "profiles", NAME + "-%d" % client)


def check(cond, msg):
    if not cond:
        print("BROKEN: " + msg)
        sys.exit(1)
