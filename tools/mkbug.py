"""Makes a planted bug from edits of a copy of the repository: bug(id, property, [(file, old, new)], demo, needs, breaks)."""
import json
import os
import subprocess
import textwrap

WT = "/tmp/wt/repo"


def bug(id, prop, edits, demo, needs, breaks, lib=True):
    subprocess.run("rm -rf %s && mkdir -p %s && cp -a /repo/. %s/ && git checkout -q -- ." % (WT, WT, WT), shell=True, check=True) if not os.path.isdir(WT) else None
    subprocess.run(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"], check=True)
    subprocess.run(["git", "-C", WT, "checkout", "-q", "-f", "--detach", "FETCH_HEAD"], check=True)
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", id)
    for f, a, b in edits:
        path = WT + "/" + (f if "/" in f else "zielen/" + f)
        s = open(path).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(path, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "diff"], capture_output=True, text=True, cwd=WT).stdout
    # lines of the original repository must change
    for f in {e[0] for e in edits}:
        path = "zielen/" + f if "/" not in f else f
        for line in diff.splitlines():
            pass
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(textwrap.dedent(demo).lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec /opt/pypyvenv/bin/python -B "$D/demo.py"\n')
    subprocess.run(["cp", os.path.dirname(os.path.abspath(__file__)) + "/lib.py", d + "/lib.py"], check=True)
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
