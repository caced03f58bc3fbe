"""Writes MANIFEST.json from the property table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from properties_table import PROPS  # noqa: E402
T = "deterministic simulation with fault injection (seeded search)"
NOTE = {p: "Seeded search over simulated runs of the real library code; a quiet run means no violation "
           "on the explored runs (counts in the evidence), not a proof. " + v.get("note", "")
        for p, v in PROPS.items()}
NA = {
    "C16": "pure function of its arguments: no schedule, time, I/O or fault can influence it; "
           "transforms are covered only as far as C01/C09 runs go through them",
    "C17": "pure functions without state, time or I/O: nothing for a simulator to schedule or fail",
    "C18": "pure function without state, time or I/O: nothing for a simulator to schedule or fail",
}
m = dict(version=1, setup_cmd="python3 bin/check.py --build", checks=[], not_applicable=[])
for p in sorted(PROPS):
    m["checks"].append(dict(
        property=p, quick_cmd="python3 bin/check.py %s" % p,
        thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % p,
        technique=T, level="exploration", level_note=NOTE[p].strip()))
for p, r in sorted(NA.items()):
    m["not_applicable"].append(dict(property=p, reason=r))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
