"""Driver side of the zygote."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHONS = {"cpython": "/opt/venv/bin/python", "pypy": "/opt/pypyvenv/bin/python"}


class HarnessError(Exception):
    """The machinery failed; never a verdict about the program."""


class Zygote:
    def __init__(self, tmp, kind="cpython", shim=None, repo="/repo"):
        os.makedirs(tmp, exist_ok=True)
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
               "HOME": tmp, "ZV_TMP": tmp, "ZV_REPO": repo, "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONHASHSEED": "0", "TZ": "UTC"}
        if shim:
            env["LD_PRELOAD"] = shim
            env["ZV_SHIM"] = shim
        self.kind = kind
        self.errlog = open(os.path.join(tmp, "zygote.log"), "wb")
        self.p = subprocess.Popen([PYTHONS[kind], os.path.join(HERE, "zygote.py")], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errlog,
                                  cwd="/", pass_fds=())
        self.tmp = tmp
        self._read()

    def _read(self):
        line = self.p.stdout.readline()
        if not line:
            with open(os.path.join(self.tmp, "zygote.log")) as f:
                raise HarnessError("zygote died: " + f.read()[-2000:])
        return json.loads(line)

    def call(self, **req):
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        return self._read()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
        self.errlog.close()
