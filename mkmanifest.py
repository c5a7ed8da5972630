"""Generates MANIFEST.json."""
import json
import os

PY = "/opt/venv/bin/python"
TECH = "contract-based deductive verification: the functions of /repo are executed symbolically under their contracts and every obligation is discharged by term normalisation and z3"
NOTE = "Proof over exact arithmetic for all inputs within the property's quantifier, from /repo's current source on every run; trusts the verifier (engine/), z3 and the dependency contracts listed in the evidence. Obligations outside its reach are listed as bounded and decided by run-time contracts on generated inputs."
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(f"/verif/specs/{i.lower()}.py"):
        checks.append(dict(property=i, quick_cmd=f"{PY} run_check.py {i}", thorough_cmd=f"{PY} run_check.py {i} --thorough", technique=TECH, level="proof", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="contracts not written yet"))
json.dump(dict(version=1, setup_cmd=f"{PY} -c 'import engine.prover, jax, equinox'", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks: /repo carries only fix: commits."), open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
