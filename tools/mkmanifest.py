"""Writes /verif/MANIFEST.json from the harness files present and the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C41": "existence of a load-flow solution reachable from the flat start is a statement about all solutions of a nonlinear system and about convergence of an unbounded iteration; no bounded unrolling of the real code expresses it",
    "C42": "the engine encodes real arithmetic; floating-point semantics of numpy/BLAS/OSQP and the iterative solvers (compiled libraries) are outside what can be encoded here",
    "C43": "behaviour of operating-system sockets, processes and an HTTP server under real time; the code only starts library servers, and there is no finite symbolic model of them in reach",
}
THOROUGH = True
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(HERE, "harness", i + ".py")):
        checks.append(dict(
            property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the Python source of /repo with z3 deciding every assertion; counterexamples replayed on the real code",
            level="model_checking",
            level_note="all values within the stated bounds, real arithmetic, on the current source; bounds, stubs and exclusions in harness/%s.py and the evidence file" % i))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
