"""Write SEEDED.md: the planted bugs and the checks that report them."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parents[2]
ADDED = {  # missed when planted -> what was added to the check
    "p20-zero-fixed": "special parameter values",
    "p23-shared-default": "spoiled results of dynamics builders",
    "p20-single-precision": "data that show a loss of precision",
    "p02-unsorted-masses": "order of the mass table",
    "p28-zero-radius": "zero radius and zero width as manipulations",
}

lines = ["# Planted bugs", "",
         "Every one passes the test suite, has a demonstration that fails only with the patch, and is reported by the quick",
         "command of the check of its property.  *Added* = what the check lacked when the bug was planted.", "",
         "| id | caught by | what it breaks | needs | added |", "|---|---|---|---|---|"]
for path in sorted((VERIF / "seeded").glob("*/meta.json")):
    meta = json.loads(path.read_text())
    cell = [path.parent.name, meta["property"], meta["what_it_breaks"], meta["needs"], ADDED.get(path.parent.name, "")]
    lines.append("| " + " | ".join(str(c).replace("|", "\\|").replace("\n", " ") for c in cell) + " |")
(VERIF / "SEEDED.md").write_text("\n".join(lines) + "\n")
