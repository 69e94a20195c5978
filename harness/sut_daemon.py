"""Runs the daemon in virtual time, one step after the other, on command.

Only the surroundings are replaced: the clock, sleeping, the command that it starts, and how long SQLite waits
for a lock. Events come from inotify."""
import io
import json
import os
import socket
import sqlite3
import subprocess
import sys
import threading
import time

import pyinotify

REAL = {k: getattr(time, k) for k in ("time", "sleep", "monotonic")}


class Driver:
    def __init__(self, path, now, shim):
        self.now = now
        self.shim = shim
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.connect(path)
        self.lines = self.sock.makefile("r")
        self.cond = threading.Condition()
        self.asleep = {}            # thread: when it wakes up
        self.calls = []             # commands that it started
        self.seen = set()           # sentinels of which the event was processed
        self.nth = 0
        self.sync_takes = self.sync_says = 0

    # Replacements
    def time(self):
        return self.now

    def sleep(self, d):
        d = max(0, d)
        if threading.current_thread() is threading.main_thread():
            self.pause(d)
            return
        me = threading.get_ident()
        with self.cond:
            self.asleep[me] = self.now + d
            self.cond.notify_all()
            while self.now < self.asleep[me]:
                self.cond.wait()
            del self.asleep[me]

    def popen(self):
        driver = self

        class Command:
            returncode = None
            pid = 1

            def __init__(self, args, *a, **kw):
                driver.calls.append([driver.now, list(args)])
                self.args = args
                self.says = "x" * 79 + "\n"
                self.says *= driver.sync_says
                out = a[4] if len(a) > 4 else kw.get("stderr")
                text = kw.get("universal_newlines") or kw.get("text") or kw.get("encoding") or kw.get("errors")
                self.piped = out == subprocess.PIPE
                self.stdin = io.StringIO()
                self.stdout = io.StringIO() if text else io.BytesIO()
                self.stderr = io.StringIO(self.says) if text else io.BytesIO(self.says.encode())

            def wait(self, timeout=None):
                if self.returncode is None:
                    if self.piped and len(self.says) - self.stderr.tell() > 65536:
                        # It can't go on before somebody reads.
                        driver.sleep(1e8)
                    if driver.sync_takes:
                        driver.sleep(driver.sync_takes)
                    self.returncode = 1 if driver.sync_takes else 0
                    driver.calls.append([driver.now, None])
                return self.returncode

            def communicate(self, *a, **kw):
                said = self.stderr.read()
                self.wait()
                return self.stdout.read(), said

            def poll(self):
                return self.returncode

            def kill(self):
                pass
            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()
        real = subprocess.Popen

        def popen(args, *a, **kw):
            # pyinotify runs commands to find libc.
            own = args.split() if isinstance(args, str) else args
            return Command(own, *a, **kw) if any("zielen" in str(x) for x in own) else real(args, *a, **kw)
        return popen

    # Steps
    def workers(self):
        return [t for t in threading.enumerate()
                if t is not threading.main_thread() and not isinstance(t, pyinotify.Notifier)]

    def settle(self):
        """Wait until all threads sleep until some time in the future."""
        end = REAL["monotonic"]() + 60
        with self.cond:
            while REAL["monotonic"]() < end:
                if all(self.asleep.get(t.ident, self.now) > self.now for t in self.workers()):
                    return
                self.cond.wait(0.05)

    def send(self, **kw):
        self.settle()
        kw.update(now=self.now, calls=self.calls, workers=len(self.workers()))
        self.calls = []
        self.sock.sendall((json.dumps(kw) + "\n").encode())

    def pause(self, d):
        """The main thread sleeps."""
        self.send(sleep=d)
        for line in self.lines:
            m = json.loads(line)
            if m["op"] == "go":
                return
            if m["op"] == "time":
                with self.cond:
                    self.now = m["now"]
                    self.cond.notify_all()
            elif m["op"] == "drain":
                self.drain(m["dirs"])
            elif m["op"] == "arm":
                self.shim(m["inject"])
            elif m["op"] == "takes":
                self.sync_takes, self.sync_says = m["value"], m.get("says", 0)
            self.send(done=m["op"])
        os._exit(0)

    def drain(self, dirs):
        """Wait until all events so far were processed."""
        for d in dirs:
            self.nth += 1
            name = ".zv-sentinel-%d-%d" % (os.getpid(), self.nth)
            p = os.path.join(d, name)
            os.close(os.open(p, os.O_CREAT | os.O_RDWR, 0o600))
            end = REAL["monotonic"]() + 90
            with self.cond:
                while name not in self.seen:
                    left = end - REAL["monotonic"]()
                    if left < 0:
                        raise AssertionError("no event for " + p)
                    self.cond.wait(left)
            os.unlink(p)


def run(profile_name, path, now, limit, arm):
    sys.stderr.reconfigure(line_buffering=True)
    driver = Driver(path, now, arm)
    mods = [m for n, m in list(sys.modules.items()) if m is not None and n.split(".")[0] in ("zielen", "pyinotify")]
    fakes = {REAL["time"]: driver.time, REAL["monotonic"]: driver.time, REAL["sleep"]: driver.sleep,
             subprocess.Popen: driver.popen()}
    for name in ("time", "monotonic", "sleep"):
        setattr(time, name, fakes[REAL[name]])
    subprocess.Popen, popen = fakes[subprocess.Popen], subprocess.Popen
    fakes[popen] = subprocess.Popen
    for m in mods:
        for k, v in list(vars(m).items()):
            try:
                if v in fakes:
                    setattr(m, k, fakes[v])
            except TypeError:
                pass
    connect = sqlite3.connect
    sqlite3.connect = lambda *a, **kw: connect(*a, **dict(kw, timeout=limit))
    process = pyinotify.Notifier.process_events

    def process_events(self):
        names = [getattr(e, "name", None) for e in self._eventq]
        r = process(self)
        names = [n for n in names if n and n.startswith(".zv-sentinel")]
        if names:
            with driver.cond:
                driver.seen.update(names)
                driver.cond.notify_all()
        return r
    pyinotify.Notifier.process_events = process_events

    from zielen.cli import daemon
    daemon(profile_name)
