"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "| Planted bug | Caught by | What it needs |\n| --- | --- | --- |\n"
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read().split(MARK)[0]
rows = []
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/").replace("\n", " ")))
open(f, "w").write(s + MARK + "".join(rows))
