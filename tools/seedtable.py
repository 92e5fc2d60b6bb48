"""Write the table of planted changes into DESIGN.md (between the markers) from seeded/*/meta.json."""
import json
import pathlib
import re
root = pathlib.Path(__file__).resolve().parent.parent
MISSED = json.loads((root / "tools/missed.json").read_text())
rows = ["| Change | Property | Needs | Caught |", "|---|---|---|---|"]
for path in sorted((root / "seeded").glob("*/meta.json")):
    meta = json.loads(path.read_text())
    name = path.parent.name
    caught = "after strengthening" if name in MISSED else "yes"
    rows.append("| `%s` | %s | %s | %s |" % (name, meta["property"], meta["needs"].replace("|", "/"), caught))
text = (root / "DESIGN.md").read_text()
a, b = "<!-- seeds -->\n", "<!-- end of seeds -->"
i, j = text.index(a) + len(a), text.index(b)
(root / "DESIGN.md").write_text(text[:i] + "\n".join(rows) + "\n" + text[j:])
