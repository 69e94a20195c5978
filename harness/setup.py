"""setup_cmd: checks that what the checks need is there. Nothing is built ahead of time; every check compiles
its small shim and imports the program from /repo itself."""
import os
import subprocess
import sys

ok = True
for exe in ("/opt/veriftools/pyvenv/bin/python", "/opt/venv/bin/python", "/opt/pypyvenv/bin/python"):
    if not os.path.exists(exe):
        print("missing: " + exe)
        ok = False
for cmd in (["gcc", "--version"], ["setpriv", "--version"],
            ["/opt/veriftools/pyvenv/bin/python", "-c", "import hypothesis"]):
    if subprocess.run(cmd, stdout=subprocess.DEVNULL).returncode:
        print("does not work: %r" % cmd)
        ok = False
sys.exit(0 if ok else 1)
