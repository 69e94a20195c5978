"""Runs checks against changed copies of the program: mut.py [-k NAME] [-c CHECK,...] [-s SEED]

The changes are in mutants.py next to this: (name, [(file, old, new), ...], checks that should catch it)."""
import argparse
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import MUTANTS                     # noqa: E402
from mutants2 import MUTANTS2                   # noqa: E402
from mutants3 import MUTANTS3                   # noqa: E402
MUTANTS += MUTANTS2 + MUTANTS3

ap = argparse.ArgumentParser()
ap.add_argument("-k", default="")
ap.add_argument("-c", default="")
ap.add_argument("-s", default="1")
ap.add_argument("-t", action="store_true", help="run the tests of the repository, too")
a = ap.parse_args()
top = "/tmp/mut"
for name, edits, checks in MUTANTS:
    if not any(k in name for k in a.k.split(",")):
        continue
    repo = top + "/" + name
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    for f, old, new in edits:
        path = repo + "/zielen/" + f
        s = open(path).read()
        if s.count(old) != 1:
            print("%-28s DOES NOT APPLY: %s %d" % (name, f, s.count(old)))
            break
        open(path, "w").write(s.replace(old, new))
    else:
        os.chmod(top, 0o755)
        todo = a.c.split(",") if a.c else checks
        for c in todo:
            if a.c and "=" not in a.c and a.c != "all" and a.k == "" and c not in checks:
                continue
            t = time.time()
            r = subprocess.run([sys.executable, "-B", HERE + "/../harness/run.py", c, "--seed", a.s],
                               env=dict(os.environ, ZV_REPO=repo, ZV_EVIDENCE=top + "/evidence"),
                               capture_output=True, text=True)
            lines = [x for x in r.stdout.splitlines() if x.startswith("  [")]
            print("%-28s %s %s %4.0fs %s" % (
                name, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d %s" % (r.returncode, r.stdout[-300:])),
                time.time() - t, lines[0][:150] if lines else ""))
            sys.stdout.flush()
    shutil.rmtree(repo, ignore_errors=True)
