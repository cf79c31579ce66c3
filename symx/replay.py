"""Replays a recorded counterexample on the unmodified code.  usage: replay.py FILE"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import run
r = json.load(open(sys.argv[1]))
res = run.native(r["harness"], r["tier"], [{"case": r["case"], "inputs": r["inputs"]}])[0]
print(json.dumps(res, indent=1))
sys.exit(0 if res["result"] in ("ok", "assume", "skip") else 1)
