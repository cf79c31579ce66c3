"""Runs harness cases with concrete inputs on the unmodified code under test.
usage: native.py REQUEST.json RESPONSE.json      (executed by the project's own interpreter)"""
import contextlib
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import cenv                                   # noqa: E402

sys.path.insert(0, cenv.SRC)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_one(case, inputs, limit):
    cenv.purge()
    scratch = tempfile.mkdtemp(prefix="vgmx-")
    cwd = os.getcwd()
    env = cenv.ConcreteEnv(scratch, inputs)
    out = {"result": "ok", "msg": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        os.chdir(scratch)
        with contextlib.redirect_stdout(env.sink):
            case.fn(env, **case.params)
    except cenv.CheckFailed as e:
        out = {"result": "violation", "msg": str(e)}
    except cenv.AssumeFailed:
        out = {"result": "assume"}
    except cenv.Skip:
        out = {"result": "skip"}
    except Hang:
        out = {"result": "hang", "msg": "no answer within %g s" % limit}
    except RecursionError as e:
        out = {"result": "exception", "msg": repr(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(cenv.SRC)]
        out = {"result": "exception", "msg": "%s: %s" % (type(e).__name__, e),
               "where": "%s:%s" % (os.path.relpath(where[-1].filename, cenv.SRC), where[-1].name) if where else "harness"}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    out["reached"] = sorted(env.reached)
    out["observed"] = env.observed
    return out


def main():
    req = json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    h = importlib.import_module("harness." + req["harness"])
    cases = {c.name: c for c in h.cases(req["tier"])}
    res = []
    for r in req["runs"]:
        res.append(run_one(cases[r["case"]], r["inputs"], req.get("limit", 60)))
        with open(sys.argv[2] + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(sys.argv[2] + ".tmp", sys.argv[2])


if __name__ == "__main__":
    main()
