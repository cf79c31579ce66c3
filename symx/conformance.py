"""Validation of the encoding: runs the small programs of snip/snippets.py symbolically, takes a model of
every explored path and compares the symbolic result with what plain Python computes from these inputs.
usage: conformance.py [-v] [NAME...]"""
import inspect
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SNIP = os.path.join(HERE, "symx", "snip")
os.environ["VGM_SRC"] = SNIP
sys.dont_write_bytecode = True
from symx import run as RUN                            # noqa: E402


EVAL = None


def args_of(env, names):
    a = {}
    for k in names:
        if k in ("x", "y"):
            a[k] = env.int(k, 0, 255)
        elif k == "n":
            a[k] = env.int(k, 0, 7)
        elif k == "w":
            a[k] = env.int(k, 0, (1 << 32) - 1)
        elif k in ("z", "q"):
            a[k] = env.zint(k, 0, 1 << 20)
        elif k == "e":
            a[k] = env.bool(k)
        elif k == "b":
            a[k] = env.file(env.bytes([env.int("b%d" % i, 0, 255) for i in range(6)])).read()
        elif k == "f":
            a[k] = env.file(env.bytes([env.int("f%d" % i, 0, 255) for i in range(7)]))
        else:
            raise ValueError(k)
    return a


def one(name, mod, plain, paths=60, seconds=20):
    """(paths, mismatches, limits)"""
    from symx import cenv, engine as E, senv, runtime as R
    import tempfile
    import shutil
    fn, ref = getattr(mod, name), plain[name]
    names = list(inspect.signature(ref).parameters)
    eng = E.ENGINE = E.Engine()
    eng.deadline = time.monotonic() + seconds * 2
    t0, n, bad, lim = time.monotonic(), 0, [], []
    scratch = tempfile.mkdtemp(prefix="vgms-")
    try:
        while n < paths and time.monotonic() - t0 < seconds and len(lim) < 3 and len(bad) < 3:
            eng.begin_path()
            eng.path_deadline = time.monotonic() + 10
            try:
                env = senv.SymEnv(eng, scratch)
                err = None
                try:
                    r = fn(**args_of(env, names))
                except E.Control:
                    raise
                except Exception as e:
                    err, r = e, type(e).__name__
                eng.path_deadline = None
                env.observed.append(["r", r])
                plain_eval, senv.eval_obs = senv.eval_obs, deep
                try:
                    s = RUN.sample(eng, env, senv)
                finally:
                    senv.eval_obs = plain_eval
                c = cenv.ConcreteEnv(scratch, s["inputs"])
                try:
                    want = ref(**args_of(c, names))
                except Exception as e:
                    want = type(e).__name__
                want = norm(want)
                got = s["observed"][0][1]
                n += 1
                if not same(got, want):
                    bad.append((s["inputs"], first(got, want), repr(err)))
            except E.Infeasible:
                pass
            except E.Control as e:
                lim.append("%s: %s" % (type(e).__name__, e))
            eng.spec, eng.local = 0, None
            eng.path_deadline = None
            if not eng.backtrack():
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        E.ENGINE = None
    return n, bad, lim


def deep(v, m):
    """Value of a symbolic result under a model."""
    from symx import runtime as R, values as V
    from symx.values import Sym, SymBytes, SymDict, SymSet
    if isinstance(v, R.SymHash):
        return ["hash"]
    if isinstance(v, V._Wrap):
        return deep(v.k, m)
    if isinstance(v, V.SymByteArray):
        v = v.b
    if isinstance(v, R.TextBytes):
        return norm(deep(v.rope, m).encode())
    if isinstance(v, SymBytes):
        n = v.length if isinstance(v.length, int) else EVAL(v.length, m)
        return ["bytes"] + [deep(v.get(i), m) for i in range(n)]
    if isinstance(v, dict):
        return ["dict"] + sorted(([deep(k, m), deep(x, m)] for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)) or type(v).__name__ == "SymSet":
        return ["set"] + sorted((deep(k, m) for k in v), key=repr)
    if isinstance(v, (list, tuple)):
        return [deep(x, m) for x in v]
    if isinstance(v, Sym):
        return EVAL(v, m)
    return norm(v)


def norm(v):
    if isinstance(v, (bytes, bytearray)):
        return ["bytes"] + list(v)
    if isinstance(v, dict):
        return ["dict"] + sorted(([norm(k), norm(x)] for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted((norm(k) for k in v), key=repr)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, int) and not isinstance(v, bool):
        return int(v)
    if v is None or isinstance(v, (bool, str, float)):
        return v
    return repr(type(v))


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and type(a) in (int, float) and type(b) in (int, float) and a == b


def first(a, b, at=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if not same(p, q):
                return first(p, q, at + "[%d]" % i)
    return "%s: symbolic %.80r, Python %.80r" % (at, a, b)


def main():
    only = [a for a in sys.argv[1:] if a != "-v"]
    v = "-v" in sys.argv
    plain = {"__name__": "plain"}
    src = open(os.path.join(SNIP, "snippets.py")).read()
    import types
    m = types.ModuleType("plain")
    sys.modules["plain"] = m
    exec(compile(src, "plain.py", "exec"), m.__dict__)
    RUN.load_instrumented()
    import importlib
    mod = importlib.import_module("snippets")
    from symx import senv
    global EVAL
    EVAL = senv.eval_obs
    total = wrong = limited = 0
    for name in sorted(k for k in m.__dict__ if k.startswith("a_")):
        if only and name not in only:
            continue
        n, bad, lim = one(name, mod, m.__dict__)
        total += n
        wrong += len(bad)
        limited += bool(lim)
        if v or bad or lim:
            print("%-14s %3d paths" % (name, n), "" if not bad else "WRONG " + repr(bad[0])[:400], "" if not lim else "LIMIT " + lim[0][:200])
    print("conformance: %d paths, %d wrong, %d programs with unsupported parts" % (total, wrong, limited))
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())
