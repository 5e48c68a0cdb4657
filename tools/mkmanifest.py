import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "symx", "checks"))
                 if f.startswith("c") and f.endswith(".py") and f[1:-3].isdigit())
NA = {
 "C27": "Pure structure/strings: the graph library cannot run on symbolic graphs, so only enumeration of concrete runs would remain, which is not solver-based checking.",
 "C28": "Convergence is an unbounded claim about floating-point iteration inside compiled code (scipy SLSQP) and about EM fixpoints; no bounded symbolic encoding decides it. C15/C16/C26 decide the single step and the objective instead.",
}
NOTES = {}
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=[], not_applicable=[],
         notes="Every check runs the real /repo code on symbolic reals and lets z3 decide; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append(dict(property=i, quick_cmd=f"bash bin/check {i} quick",
            thorough_cmd=f"bash bin/check {i} thorough", evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the real Python code on z3 reals, SMT (QF_NRA) verdict per path, replayed counterexamples",
            level="model_checking",
            level_note="Holds for all real values of the symbolic inputs, for the enumerated structures only; floats are treated as reals; trusts CPython, numpy's shape logic, z3 and the stubs listed in the evidence."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "Check not built yet.")))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
