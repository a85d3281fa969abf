#!/usr/bin/env python3
"""dev/seed.py new <id> <property> <file> <<< old \\n====\\n new \\n====\\n needs \\n====\\n breaks \\n====\\n demo.py
   dev/seed.py test [<id>...] [--notests] [--checks C01,C02]
Makes and tries planted bugs (development only; no check reads seeded/)."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$here" exec python3 "$here/demo.py"
"""
DOM = '''"""A minimal document tree"""
from colosseum.declaration import CSS
from colosseum.dimensions import Box, Size
from colosseum.engine import layout


class Display:
    def __init__(self, dpi=96, width=1024, height=768):
        self.dpi, self.content_width, self.content_height = dpi, width, height

    def fixed_size(self, value):
        return {"thin": 1, "medium": 5, "thick": 10}[value]


class Node:
    def __init__(self, *children, **style):
        self.parent = None
        self.children = list(children)
        for c in children:
            c.parent = self
        self.intrinsic = Size(self)
        self.layout = Box(self)
        self.style = CSS(**style).copy(self)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def new(argv, text=None):
    sid, prop, fn = argv
    old, newt, needs, breaks, demo = [x.strip("\n") for x in (text or sys.stdin.read()).split("\n====\n")]
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh("cp -a /repo %s/repo" % work)
    path = os.path.join(work, "repo/src/colosseum", fn)
    src = open(path).read()
    olds, news = old.split("\n@@@@\n"), newt.split("\n@@@@\n")
    out = src
    for o, n in zip(olds, news):
        if out.count(o) != 1:
            print("%s: old text occurs %d times" % (sid, out.count(o)))
            print(o)
            return 1
        out = out.replace(o, n)
    open(path, "w").write(out)
    diff = sh("git -C %s/repo diff" % work).stdout
    sh("rm -rf " + work)
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo.strip() + "\n")
    if "from dom import" in demo:
        open(os.path.join(d, "dom.py"), "w").write(DOM)
    json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return 0


def one(args):
    """try one planted bug in a scratch copy of /repo"""
    sid, tests, checks = args
    d = os.path.join(SEED, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    line = []
    try:
        repo = w + "/repo"
        sh("cp -a /repo " + repo)
        r0 = sh("bash %s/demo.sh" % d, cwd=repo)
        a = sh("git -C %s apply %s/patch.diff" % (repo, d))
        if a.returncode:
            return sid + " DOES NOT APPLY " + a.stderr
        r1 = sh("bash %s/demo.sh" % d, cwd=repo)
        line.append("demo %d/%d" % (r0.returncode, r1.returncode))
        if r0.returncode:
            line.append(r0.stderr[-300:])
        if not r1.returncode:
            line.append("DEMO PASSES WITH BUG")
        if tests:
            sh(". /opt/vp/env.sh; PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/junit.xml; python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml" % (repo, w, w, w), cwd=repo)
            o = json.load(open(w + "/out.json"))
            miss = stable - set(o["passed"])
            line.append("tests %s" % ("ok" if not miss else "BROKEN %d %s" % (len(miss), sorted(miss)[:2])))
        for c in checks or [meta["property"]]:
            r = sh("COLOSSEUM_REPO=%s python3 check.py %s" % (repo, c), cwd=HERE)
            caught = r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout
            line.append("%s %s" % (c, "caught" if caught else "MISSED rc=%d" % r.returncode))
            if not caught:
                line.append(r.stdout[-300:] + r.stderr[-300:])
        return sid + " " + " | ".join(line)
    finally:
        sh("rm -rf " + w)


def test(argv):
    opts = {argv[i + 1] for i, x in enumerate(argv) if x in ("--checks", "--jobs")}
    ids = [a for a in argv if not a.startswith("--") and a not in opts] or sorted(os.listdir(SEED))
    checks = argv[argv.index("--checks") + 1].split(",") if "--checks" in argv else None
    jobs = int(argv[argv.index("--jobs") + 1]) if "--jobs" in argv else 4
    from multiprocessing.pool import ThreadPool

    for out in ThreadPool(jobs).imap(one, [(i, "--notests" not in argv, checks) for i in ids]):
        print(out, flush=True)


def batch(argv):
    """several bugs: %%%% id property file, then as for new"""
    r = 0
    for b in ("\n" + sys.stdin.read()).split("\n%%%% ")[1:]:
        head, body = b.split("\n", 1)
        r |= new(head.split(), body)
    return r


def table(argv):
    """rewrite the table of planted bugs in DESIGN.md (all of them are caught; see test)"""
    rows = ["<!-- table -->", "| bug | property | what it needs | what it breaks | caught by |", "|---|---|---|---|---|"]
    for sid in sorted(os.listdir(SEED)):
        m = json.load(open(os.path.join(SEED, sid, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (sid, m["property"], m["needs"], m["what_it_breaks"].rstrip("."), m.get("caught", m["property"])))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a = s.index("<!-- table -->")
    b = s.index("\n## 5.")
    open(p, "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])


if __name__ == "__main__":
    sys.exit({"table": table, "new": new, "test": test, "batch": batch}[sys.argv[1]](sys.argv[2:]))
