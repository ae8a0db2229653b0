"""Rewrite the table of planted bugs at the end of DESIGN.md from results given as lines "id check caught|missed"."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
text = (root / "DESIGN.md").read_text().split("\n| planted change |")[0].rstrip()
notes = {}
log = root / "tools/seed_results.txt"
for line in log.read_text().splitlines():
    sid, check, outcome = line.split()
    notes.setdefault(sid, {})[check] = outcome
out = ["", "", "| planted change | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    meta = json.loads((d / "meta.json").read_text())
    seen = notes.get(d.name, {})
    caught = ", ".join(c for c, o in sorted(seen.items()) if o == "caught") or "-"
    missed = ", ".join(c for c, o in sorted(seen.items()) if o == "missed")
    out.append(f"| {d.name} | {meta['property']} | {meta['needs']} | {caught}{' (not ' + missed + ')' if missed else ''} |")
(root / "DESIGN.md").write_text(text + "\n".join(out) + "\n")
