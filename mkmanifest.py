"""Writes MANIFEST.json from properties.jsonl and NOTES below."""
import json

NOTE = ("Every feasible path of the harnesses over the real code (AST-instrumented from /repo/src on each run) is explored and every assertion is "
        "discharged by z3 for all inputs on that path, within the stated bounds; counterexamples are replayed on the unmodified code before they are reported. "
        "Trusts the instrumentation and the built-in models (cross-checked by native replay of sampled paths), and z3. ")
T = "symbolic execution of the real Python source with z3 (path-exhaustive within bounds), counterexamples replayed natively"
EXTRA = {
    "C05": "Bounded to short streams with arbitrary 16-bit waits.",
    "C14": "Per tier only the listed spacings of the grid; start offsets and operands symbolic.",
    "C20": "Floating point is encoded as reals with the IEEE rounding-error bound per operation (over-approximation).",
    "C21": "Bounded to short songs; spacings and waits symbolic.",
    "C24": "File names and modes are chosen from lists (branches on them are enumerated by the solver-driven explorer); error points symbolic.",
    "C25": "Settings, texts and line numbers are unbounded-size symbols; shapes are enumerated within bounds.",
    "C27": "The command line is run in process with chosen spellings; operands, waits, unusable contents symbolic.",
}
P = [json.loads(x) for x in open("/verif/properties.jsonl")]
checks = [{"property": p["id"], "quick_cmd": "python3-vt symx/run.py %s --tier quick" % p["id"],
           "thorough_cmd": "python3-vt symx/run.py %s --tier thorough" % p["id"],
           "technique": T, "level": "model_checking", "level_note": NOTE + EXTRA.get(p["id"], "")} for p in P]
m = {"version": 1, "setup_cmd": "python3-vt symx/selftest.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. known_findings.json lists the recorded finding and the repaired defects. See DESIGN.md."}
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
