"""Writes CONTRACTS.md: every function under contract, from the evidence files of the last run of all checks."""
import json, pathlib

root = pathlib.Path(__file__).resolve().parent.parent
out = ["# Functions under contract", "", "Written by `tools/gen_contracts.py` from the evidence of a run on the current tree.", ""]
total = functions = lemmas = 0
body = []
for l in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    e = json.loads((root / "evidence" / f"{p['id']}.json").read_text())
    c = e["coverage"]
    total += c["obligations"]
    functions += len(c["functions_under_contract"])
    body += [f"## {p['id']} {p['title']}", "", f"{c['obligations']} obligations, {c['discharged']} discharged.", ""]
    lemmas += len(c["lemmas"])
    for f in c["functions_under_contract"] + c["lemmas"]:
        body.append(f"* **{f['function']}** ({f['status']}, {f['obligations']} obligations)")
        for k in ("requires", "ensures"):
            if f[k]:
                body.append(f"  * {k}: " + "; ".join(f[k]))
    body += ["", "Source read: " + ", ".join(f"`{s}`" for s in sorted(c["source_read"])), "", "Assumptions:", ""]
    body += [f"* {a.split(': ', 1)[1] if a.startswith(p['id'] + ':') else a}" for a in e["assumptions"]] + [""]
out += [f"{functions} contracts, {lemmas} lemmas, {total} obligations.", ""] + body
(root / "CONTRACTS.md").write_text("\n".join(out))
