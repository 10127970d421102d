"""Writes /verif/MANIFEST.json from the registered properties."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "A": "runtime monitor at the API boundary: every value compared online with an independent reference model, generated workloads",
    "B": "runtime monitor at the API boundary: metamorphic / invariant oracle over observed calls, generated workloads",
    "C": "runtime monitor at the API boundary: oracle over observed states and histories, generated workloads",
}
SPEC = {
    "C01": "state monitor: fingerprints of inputs and process-wide state compared after every API step",
    "C04": "history checker: recorded random API histories compared with isolated and fresh-process answers",
    "C07": "fault injection through a profile hook at library calls, state and values compared afterwards",
    "C09": "concurrency stress under a 1e-6 s switch interval with a per-call oracle over the recorded answers",
    "C12": "history checker: random configuration histories against an executable dictionary model",
}
NOTE = "Held on the executions observed (counts, scenarios and tags in the evidence file); says nothing about inputs not generated. Trusts NumPy/SciPy special functions and the reference models in monitor/refs.py, which were written from the documented formulas and share no code with the package."
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    checks.append(dict(
        property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=SPEC.get(i, T[i[0]]),
        level="fault_enumeration" if i == "C07" else "exploration",
        level_note=NOTE if i[0] != "C" else NOTE.replace(" and share no code with the package", " and share no code with the package; CPython 3 with the GIL is assumed" if i == "C09" else " and share no code with the package")))
M = dict(version=1, setup_cmd="mkdir -p evidence/replays", checks=checks, not_applicable=[],
         notes="Pure Python package: the checks import it from /repo's working tree (no byte-code cache), no hooks in the source.")
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
