"""Setup: checks that the tools are present and that the instrumented translation of /repo/src behaves
like the original: the repository's own unit tests must have the same outcomes under both.
Differences are reported, they do not fail the setup (the checks report by themselves)."""
import json
import os
import subprocess
import sys
import unittest

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

PROG = r'''
import io, json, sys, unittest
sys.dont_write_bytecode = True
sys.path.insert(0, %(here)r)
if %(inst)r:
    from symx import run
    run.load_instrumented()
    from symx import runtime
    runtime._setup()
else:
    sys.path.insert(0, %(src)r)
sys.path.insert(0, %(repo)r)
class R(unittest.TestResult):
    def __init__(self):
        super().__init__(); self.out = {}
    def addSuccess(self, t): self.out[t.id()] = "ok"
    def addFailure(self, t, e): self.out[t.id()] = "fail"
    def addError(self, t, e): self.out[t.id()] = "error"
    def addSubTest(self, t, s, e):
        if e is not None: self.out[t.id() + "/sub"] = "fail"
out = sys.stdout
sys.stdout = io.StringIO()
r = R()
unittest.defaultTestLoader.discover(%(repo)r + "/tests", top_level_dir=%(repo)r).run(r)
out.write(json.dumps(r.out))
'''


def outcomes(python, inst):
    src = os.environ.get("VGM_SRC", "/repo/src")
    d = {"here": HERE, "src": src, "repo": os.path.dirname(src), "inst": inst}
    p = subprocess.run([python, "-c", PROG % d], capture_output=True, text=True, timeout=600,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"), cwd="/")
    try:
        return json.loads(p.stdout[p.stdout.index("{"):])
    except Exception:
        return {"broken": p.stderr[-2000:]}


def main():
    import z3
    s = z3.Solver()
    x = z3.BitVec("x", 16)
    s.add(x * x == 49, x > 100)
    assert s.check() == z3.sat
    print("z3", z3.get_version_string())
    a = outcomes(os.environ.get("VGM_PYTHON", "/opt/venv/bin/python"), False)
    b = outcomes(sys.executable, True)
    diff = {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    print("unit tests of the repository: %d native, %d under instrumentation, %d differences" % (len(a), len(b), len(diff)))
    for k, v in list(diff.items())[:10]:
        print("  ", k, v)
    c = subprocess.run([sys.executable, os.path.join(HERE, "symx", "conformance.py")], capture_output=True, text=True, timeout=900)
    print(c.stdout[-3000:] + c.stderr[-2000:])
    diff = diff or c.returncode
    if diff and os.environ.get("VGM_STRICT"):
        sys.exit(1)


if __name__ == "__main__":
    main()
