"""Writes data/known_consts.json from /repo's tree (run on the pinned tree only)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.dictionary import consts, KNOWN
i, s = consts(os.environ.get("VERIF_REPO", "/repo") + "/procmon_parser")
json.dump({"ints": sorted(i), "strs": sorted(x for x in s if len(x) <= 40 and "\n" not in x)}, open(KNOWN, "w"), indent=0)
print(len(i), len(s))
