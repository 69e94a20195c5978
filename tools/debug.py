"""Run a replay step by step and print the state after each command: debug.py CHECK REPLAY [cpython|pypy]"""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
if os.environ.get("ZV_IN"):
    top = os.environ["ZV_IN"]
    sys.path[:0] = [top + "/harness", top + "/checks"]
    import json, registry, shard, hist, c_history
    chk = registry.get(sys.argv[1])
    plan = json.load(open(top + "/replay.json")); plan = plan.get("plan", plan)
    ctx = shard.Ctx(top + "/work/s0", "dbg", sys.argv[2], top + "/shim.so", os.environ.get("ZV_REPO", "/repo"), "quick")
    if "steps" not in plan or "victim" in plan:
        import world
        real = world.World.done
        def done(self, c, argv, res, timeout):
            print("==", c.i, argv, res.get("rc"), res.get("signal"), res.get("ops"))
            s = hist.State(self)
            for n, t in [("R", s.R), ("T", s.T)] + [("L%d" % k, v) for k, v in s.L.items()]:
                for p, e in sorted(t.items()):
                    print("   ", n, p, e)
            return real(self, c, argv, res, timeout)
        world.World.done = done
        sys.modules[type(chk).__module__].DEBUG = True
        r = chk.run(ctx, plan)
        print(r.problems, r.stats)
        ctx.close()
        sys.exit()
    H = getattr(sys.modules[type(chk).__module__], "TrashHistory", hist.History)
    h = H(ctx, plan)
    for op in plan["steps"]:
        print("==", op)
        h.step(op)
        if op[0] in ("sync", "init", "reset", "select", "empty", "again"):
            s = hist.State(h.w)
            for n, t in [("R", s.R), ("T", s.T)] + [("L%d" % k, v) for k, v in s.L.items()]:
                for p, e in sorted(t.items()):
                    print("   ", n, p, e)
            for c in h.w.clients:
                if c.up:
                    print("   ", h.w.records(c))
        if h.problems:
            print(h.problems)
            break
    h.close(); ctx.close()
else:
    import run
    top = run.prepare("dbg")
    try:
        open(top + "/replay.json", "w").write(open(sys.argv[2]).read())
        os.chmod(top + "/replay.json", 0o644)
        open(top + "/dbg.py", "w").write(open(__file__).read()); os.chmod(top + "/dbg.py", 0o644)
        os.mkdir(top + "/work/s0"); os.chmod(top + "/work/s0", 0o777)
        subprocess.run(run.SETPRIV + [run.PYVT, "-B", top + "/dbg.py", sys.argv[1], (sys.argv[3:] or ["cpython"])[0]],
                       env=dict(ZV_REPO=os.environ.get("ZV_REPO", "/repo"), PATH="/usr/bin:/bin", HOME=top + "/work/s0", ZV_IN=top, LANG="C.UTF-8", TZ="UTC"))
    finally:
        run.remove(top)
