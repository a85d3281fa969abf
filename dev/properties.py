#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one entry for every property that has a specification in harness/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/colosseum/"
PROPS = []
NOTES = {}


def prop(id, title, statement, over, text, why, files, mechanism, note=""):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": [S + f for f in files],
                              "mechanism": [{"name": n, "where": S + w} for n, w in mechanism]}})
    NOTES[id] = note


exec(open(os.path.join(HERE, "dev", "catalogue.py"), encoding="utf-8").read())

NOT_APPLICABLE = []
exec(open(os.path.join(HERE, "dev", "not_applicable.py"), encoding="utf-8").read())

TECHNIQUE = "static analysis: abstract interpretation of the source (trace-partitioned value and effect analysis with numeric, string and heap domains) against a specification"
NOTE = ("Every obligation of the specification holds in every partition of the abstract inputs; the source is interpreted abstractly, never executed, and no solver is used. "
        "Trusted: the interpreter pyai/ with its models of Python's builtins and standard library, and the specification. "
        "Numbers are exact rationals (no floating-point rounding). A construct the interpreter doesn't model makes an obligation undecided, which is reported but is no alarm.")


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(HERE, "harness", p["id"] + ".py"))]
    gone = [p for p in PROPS if p not in have]
    if gone:
        print("no specification yet:", ", ".join(p["id"] for p in gone))
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in have + [n[0] for n in NOT_APPLICABLE]:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                     "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": TECHNIQUE, "level": "proof", "level_note": (NOTE + " " + NOTES[p["id"]]).strip()} for p in have],
         "not_applicable": [{"property": p["id"], "reason": r} for p, r in NOT_APPLICABLE],
         "notes": "No hooks: nothing of /repo is executed by the checks. KNOWN_FINDINGS.txt lists the genuine defects that are reported but not repaired, and those that were repaired."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(have), "properties,", len(NOT_APPLICABLE), "not applicable")


main()
