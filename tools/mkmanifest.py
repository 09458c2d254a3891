"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc.tasks import tasks_of  # noqa: E402

NOTE = {
    "C01": "Inverse of the field contracts proved for all values and field specifications; the message-level contracts of encode it composes with are discharged too.",
    "C02": "Inverse of the field contracts proved for all byte strings and field specifications; the message-level contracts of decode it composes with are discharged too.",
}
GEN = ("Every obligation generated from the current source of the functions under contract is discharged, for all inputs and field "
       "specifications, all 2^190 field subsets and all loop iterations. Trusted: the generator's model of Python built-ins and codecs, z3/cvc5; "
       "see the evidence file's assumptions. A bounded search on the real code runs beside the proof and finds failing inputs when an obligation fails.")
NA = {}


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f]
    for p in ids:
        if not tasks_of(p):
            na.append({"property": p, "reason": NA.get(p, "not built yet")})
            continue
        checks.append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
            "technique": "contracts on the real functions, verification conditions generated from their source and discharged by z3/cvc5",
            "level": "proof",
            "level_note": (NOTE.get(p, "") + " " + GEN).strip(),
        })
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "fixed defects are recorded in known_findings.txt; python3 check.py --replay <file> runs a replay file again"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
