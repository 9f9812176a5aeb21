"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parents[1]
p = root / "DESIGN.md"
head = p.read_text().split("\n## Planted bugs\n")[0]
# reported by another check too, or not by the own one
ALSO = json.loads((root / "tools/caught.json").read_text())
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    i = m.parent.name
    by = ALSO.get(i, [d["property"]])
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), ", ".join(by) or "missed"))
p.write_text(head + "\n## Planted bugs\n\nEach folder in `/verif/seeded` was confirmed: applies, passes the stable tests, demo fails with it and passes without it.\n"
             "\"By\" lists checks (quick tier) that report it; it was looked at for the own check of each bug, and in places for others.\n"
             "A bug that was missed at first is listed with the check that reports it since it was strengthened.\n\n"
             "| bug | property | breaks | needs | by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
