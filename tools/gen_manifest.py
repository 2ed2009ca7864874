"""Writes /verif/MANIFEST.json from properties.jsonl and the task modules present."""
import json, pathlib

root = pathlib.Path(__file__).resolve().parent.parent
checks = []
for l in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    i = p["id"]
    proof = (root / "vf" / "tasks" / f"{i.lower()}.py").exists()
    checks.append(
        dict(
            property=i,
            quick_cmd=f"./check.sh {i}",
            thorough_cmd=f"./check.sh {i}",
            evidence_file=f"evidence/{i}.json",
            technique="contract-based deductive verification (own VC generator, z3/cvc5)" if proof else "runtime contract checking on generated inputs",
            level="proof" if proof else "other",
            level_note="obligations generated from /repo's current source by symbolic execution against callee contracts and discharged by the normaliser and z3/cvc5; see DESIGN.md"
            if proof
            else "bounded: contracts evaluated on concrete inputs only",
        )
    )
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[])
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
