#!/usr/bin/env python3
"""check.py <property> [--thorough] [--only TEXT] [-v]

Decides one property of /repo's current source by abstract interpretation of the source
together with the specification harness/<property>.py.  Nothing of /repo is imported or executed."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")

from pyai import run  # noqa: E402

HERE = run.VERIF


def known(prop):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                lab, _, text = rest.partition(" :: ")
                out[lab.strip()] = text.strip()
    return out


def replay(prop, findings):
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    path = os.path.join(HERE, "evidence", "replay", prop + ".json")
    with open(path, "w") as f:
        json.dump(findings, f, indent=1, default=str)
    return path


def main(argv):
    prop = argv[0]
    thorough = "--thorough" in argv or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in argv)
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        r = run.big(run.analyse, prop, seed, thorough, only)
    except run.ImportRaises as e:
        if prop != "C36":
            print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
            return 2
        path = replay(prop, [{"obligation": "every module can be imported", "finding": str(e)}])
        print("REFUTED every module can be imported")
        print("    construct: %s" % e)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except run.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    listed = known(prop)
    bad, kn, und = [], [], []
    for lab in sorted(r["obls"]):
        o = r["obls"][lab]
        for info in o["known"]:
            if info.get("id") in listed:
                kn.append((info["id"], lab, info))
            else:
                bad.append((lab, info))
        for info in o["refuted"]:
            bad.append((lab, info))
        for info in o["undecided"]:
            und.append((lab, info))
    for t in r["soft"]:
        und.append(("module level", "unmodelled construct: " + t))
    if r["tainted"]:
        # a statement of a module could not be followed and may have changed anything: nothing is claimed against the code
        und.extend((lab, "a module-level statement is not modelled: " + str(info.get("at") or info.get("raised") or "")) for lab, info in bad)
        bad = []
    proved = sum(o["proved"] for o in r["obls"].values())
    labels = sum(1 for o in r["obls"].values())
    done = sum(1 for o in r["obls"].values() if o["proved"] and not o["refuted"] and not o["undecided"] and not o["known"])
    print("property %s: analysed %d functions (%d call sites) of %s; %d obligations in %d partitions, %d discharged, %d undecided; %.1f s"
          % (prop, len(r["functions"]), r["callsites"], ", ".join(r["files"]), labels, proved + len(bad) + len(und) + len(kn), done, len(und), r["wall"]))
    if verbose:
        for s in r["slow"]:
            print("   slow:", s)
        for w in r["writes"]:
            print("   write:", w)
        for lab in sorted(r["obls"]):
            o = r["obls"][lab]
            print("   %-70s proved %d refuted %d known %d undecided %d" % (lab, o["proved"], len(o["refuted"]), len(o["known"]), len(o["undecided"])))
    for lab, info in und[:40 if verbose else 8]:
        print("UNDECIDED %s: %s" % (lab, info))
    for k in sorted(set(x[0] for x in kn)):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, listed[k]))
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": LEVEL,
          "coverage": {"obligations": labels, "discharged": done,
                       "partitions_proved": proved, "partitions_undecided": len(und), "partitions_known_finding": len(kn),
                       "checker_cmd": "python3 check.py %s%s" % (prop, " --thorough" if thorough else ""),
                       "rule": "abstract interpretation of the source with the specification harness/%s.py; an obligation is discharged if it holds in every partition of the abstract inputs" % prop,
                       "trusted_base": ["pyai/ (abstract interpreter, numeric and string domains, models of builtins and of the standard library)",
                                        "harness/%s.py (specification)" % prop, "CPython's ast module"],
                       "functions_analysed": r["functions"], "call_sites": r["callsites"], "files": r["files"],
                       "instances": r["jobs"], "paths_ended": r["ends"], "joins": r["merges"], "statements_interpreted": r["steps"],
                       "obligation_labels": sorted(r["obls"])[:400],
                       "undecided": ["%s: %s" % (a, b) for a, b in und[:50]]},
          "assumptions": ASSUMPTIONS, "wall_s": round(r["wall"], 2), "violations": len(bad)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if bad:
        path = replay(prop, [{"obligation": a, "finding": b} for a, b in bad])
        seen = {}
        for lab, info in bad:
            seen[lab] = seen.get(lab, 0) + 1
            if seen[lab] > 1 or len(seen) > 6:
                continue
            print("REFUTED %s" % lab)
            if info.get("raised"):
                print("    raises: %s" % info["raised"])
            if info.get("at"):
                print("    construct: %s" % info["at"])
            print("    inputs: %s" % json.dumps(info.get("witness"), default=str))
            for p in info.get("path", [])[-12:]:
                print("    path: %s" % p)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not proved and und:
        print("UNDECIDED property=%s: nothing could be decided" % prop)
        return 0
    if not proved:
        print("ANALYSIS-BROKEN property=%s no obligation was discharged" % prop)
        return 2
    return 0


LEVEL = "proof"
ASSUMPTIONS = ["numbers are treated as exact rationals: rounding of binary floating point is not modelled",
               "numbers are finite and of moderate size (decimal notation without exponent)",
               "the standard library and builtins behave as modelled in pyai/",
               "obligations that the analysis cannot decide (unmodelled constructs) are counted as undecided, not as violations"]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
