"""Writes MANIFEST.json from the registry of the checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import rules  # noqa: E402

NOTE = "Holds for every input covered by the abstract situation (arbitrary parameters, units, states, forcings), not for samples. Trusts the abstract semantics of Python, numpy, pint, pandas and scmdata in tools/sa, and assumes exact real arithmetic."
NA = {
}


def main():
    m = {"version": 1, "setup_cmd": "python3-vt -c \"import sympy, ast\"", "checks": []}
    skip = set(sys.argv[1:])
    for p, i in sorted(rules.INFO.items()):
        if p in skip:
            continue
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3-vt tools/check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt tools/check.py " + p,
            "technique": i["technique"],
            "level": "other",
            "level_note": "Rule: %s. %s" % (i["rule"], i.get("note", NOTE)),
        })
    m["not_applicable"] = [{"property": p, "reason": r} for p, r in sorted(NA.items())]
    m["not_applicable"] += [{"property": p, "reason": "check under construction"} for p in sorted(skip)]
    m["notes"] = "No hooks in /repo. Every check parses /repo/src afresh and executes nothing of it; python3-vt (sympy) is the only tool needed."
    with open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
