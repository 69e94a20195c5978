"""Runs inside the interpreter of the program under test (CPython or PyPy).

Imports zielen from /repo once, then forks a child per request. Requests and answers are JSON lines on
stdin/stdout. A child runs `zielen.cli.main()` exactly as the script would (argv, environment, atexit
functions, exit status), or one of the functions of sut_api.py.
"""
import atexit
import ctypes
import json
import os
import select
import signal
import sys
import time
import traceback
import types

REPO = os.environ.get("ZV_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
if sys.version_info >= (3, 12):
    # pyinotify needs a name that the standard library no longer has; nothing of it is used here.
    sys.modules.setdefault("asyncore", types.SimpleNamespace(
        file_dispatcher=type("file_dispatcher", (), {})))

import warnings                                                   # noqa: E402
warnings.simplefilter("ignore")
import zielen.cli                                                 # noqa: E402
import zielen.filelogic                                           # noqa: E402
import sut_api                                                    # noqa: E402

assert os.path.realpath(zielen.cli.__file__).startswith(os.path.realpath(REPO) + "/"), zielen.cli.__file__
try:
    SHIM = ctypes.CDLL(os.environ["ZV_SHIM"]) if os.environ.get("ZV_SHIM") else None
    if SHIM:
        SHIM.zv_arm.argtypes = [ctypes.c_char_p, ctypes.c_long] + [ctypes.c_int] * 5
        SHIM.zv_count.restype = ctypes.c_long
        SHIM.zv_kinds.restype = ctypes.c_char_p
        SHIM.zv_clock.argtypes = [ctypes.c_longlong]
except OSError:
    SHIM = None


LIBC = ctypes.CDLL(None)


def arm(inj):
    SHIM.zv_sock(inj.get("sock", 0))
    SHIM.zv_arm(inj["prefix"].encode(), inj.get("at", -1), inj.get("mode", 0), inj.get("err", 0),
                inj.get("notify", -1), inj.get("wait", -1), inj.get("log", -1))


def child(req, out_path, res_fd):
    """Never returns."""
    res = {}
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)      # a stopped child must not outlive the zygote
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGPIPE):
        signal.signal(s, signal.SIG_DFL)
    env = req.get("env") or {}
    for k, v in env.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    if "TZ" in env:
        time.tzset()
    os.chdir(req.get("cwd") or "/")
    out_fd = os.open(out_path + ".out", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    err_fd = os.open(out_path + ".err", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    in_fd = os.open(out_path + ".in", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    os.write(in_fd, (req.get("stdin") or "").encode())
    os.lseek(in_fd, 0, 0)
    os.dup2(in_fd, 0)
    os.dup2(out_fd, 1)
    os.dup2(err_fd, 2)
    for fd in (in_fd, out_fd, err_fd):
        os.close(fd)
    sys.stdin = open(0, "r", encoding="utf-8", closefd=False)
    sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
    sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
    atexit._clear()
    rc = None
    code = 0
    try:
        if req.get("patch"):
            sut_api.patch(req["patch"])
        if req.get("clock") is not None:
            SHIM.zv_clock(req["clock"])
        if req.get("inject"):
            arm(req["inject"])
        if req["op"] == "api":
            res["value"] = getattr(sut_api, req["fn"])(*req.get("args", []))
        else:
            sys.argv = ["zielen"] + list(req["argv"])
            code = zielen.cli.main()
            if code is None:
                code = 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException as e:
        res["exc"] = type(e).__name__
        traceback.print_exc()
        code = 1
    # What the interpreter does when the program ends.
    try:
        atexit._run_exitfuncs()
    except BaseException as e:
        res["exit_exc"] = type(e).__name__
        traceback.print_exc()
    if SHIM:
        res["ops"] = SHIM.zv_count()
        if (req.get("inject") or {}).get("mode") == 0:
            res["kinds"] = SHIM.zv_kinds().decode("utf-8", "replace").splitlines()
        SHIM.zv_disarm()
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        pass
    res["rc"] = code
    data = (json.dumps(res) + "\n").encode()
    while data:
        data = data[os.write(res_fd, data):]
    os._exit(0)


procs = {}
nproc = 0


def start(req):
    global nproc
    nproc += 1
    out_path = os.path.join(os.environ["ZV_TMP"], "io%d" % (nproc % 2000))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            child(req, out_path, w)
        finally:
            os._exit(99)
    os.close(w)
    procs[pid] = (r, out_path, req)
    return pid


def wait(pid, timeout):
    r, out_path, req = procs.pop(pid)
    buf = b""
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        ready = select.select([r], [], [], max(0, left))[0]
        if not ready:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    res = {}
    if buf:
        res = json.loads(buf.decode())
    elif os.WIFSIGNALED(status):
        res["signal"] = os.WTERMSIG(status)
    else:
        res["exit"] = os.WEXITSTATUS(status)
    if timed_out:
        res["timeout"] = True
    for k in ("out", "err"):
        try:
            with open(out_path + "." + k, encoding="utf-8", errors="backslashreplace") as f:
                res[k] = f.read()
        except FileNotFoundError:
            res[k] = ""
    return res


def stopped(pid, timeout):
    deadline = time.monotonic() + timeout
    while time.monotonic() < deadline:
        with open("/proc/%d/stat" % pid) as f:
            state = f.read().rpartition(")")[2].split()[0]
        if state in "Tt":
            return True
        if state in "ZX":
            return False
        time.sleep(0.001)
    return None


def main():
    inp = os.fdopen(0, "rb", closefd=False)
    outp = os.fdopen(os.dup(1), "wb")
    for i in range(int(os.environ.get("ZV_WARM", "0"))):
        pass
    outp.write(b'{"ready": true}\n')
    outp.flush()
    while True:
        line = inp.readline()
        if not line:
            break
        req = json.loads(line.decode())
        op = req["op"]
        if op in ("run", "api"):
            res = wait(start(req), req.get("timeout", 60))
        elif op == "start":
            req["op"] = req.get("kind", "run")
            res = {"pid": start(req)}
        elif op == "wait":
            res = wait(req["pid"], req.get("timeout", 60))
        elif op == "stopped":
            # Waits until the process has stopped itself (true) or ended (false).
            res = {"value": stopped(req["pid"], req.get("timeout", 60))}
        elif op == "kill":
            os.kill(req["pid"], req["sig"])
            res = {}
        elif op == "quit":
            break
        else:
            res = {"error": "bad op"}
        outp.write((json.dumps(res) + "\n").encode())
        outp.flush()


main()
