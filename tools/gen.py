import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import PROPS, NA
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, level, note in PROPS:
        f.write(json.dumps(d) + "\n")
TECH = ("contract-based deductive verification: contracts on the real functions, verification conditions generated by "
        "symbolic execution of the current source, discharged by normal form, z3 and cvc5")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": d["id"],
                 "quick_cmd": "bash check.sh %s quick" % d["id"],
                 "thorough_cmd": "bash check.sh %s thorough" % d["id"],
                 "technique": TECH, "level": level, "level_note": note or "every obligation of every contract of this "
                 "property is discharged from /repo's current source on each run, for all inputs in the stated domain"}
                for d, level, note in PROPS if d["id"] not in NA],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
