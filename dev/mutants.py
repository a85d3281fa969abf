#!/usr/bin/env python3
"""dev/mutants.py MUTS.json OUT.json [--jobs N] [--files engine,...]
For each mutant of the package ({file, a, b, new}: source[a:b] becomes new), which specification refutes it first?
(development only; the checks themselves always run on /repo as it is)"""
import json
import os
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
LAY = "C30 C31 C35 C28 C34 C29 C32 C33 C25 C37 C27 C26 C24"
STY = "C10 C09 C05 C06 C01 C38 C04 C03 C02 C07 C08 C20 C11"
VAL = "C12 C13 C14 C16 C15 C17 C18 C19 C38 C11 C10 C06 C09 C01"
ORDER = {"engine": "C36 " + LAY, "dimensions": "C36 C21 C23 C22 C24 C25 C33 " + LAY + " C03", "declaration": "C36 " + STY + " " + LAY,
         "units": "C36 C18 C19 C12 C38 C34 C10 C11", "utils": "C36", "constants": "C36 " + STY + " C38 C14 " + LAY}
FULL = ["C%02d" % i for i in range(1, 39)]


FN = [("block_non_replaced_normal_flow_width", "C28 C34 C29 C37"), ("layout_box", "C35 C29 C33 C32 C25 C27"), ("inline_replaced", "C30 C34 C37"),
      ("and_margins", "C31 C30 C28 C27"), ("inline_non_replaced", "C31 C34 C37"), ("block_non_replaced_normal_flow_height", "C29 C34 C35 C37"),
      ("engine.py:is_", "C33 C27 C29"), ("establishes", "C33 C27 C29"), ("anonymize", "C33 C27 C29"), ("engine.py:layout", "C35 C33 C26 C25"), ("engine.py:calculate_size", "C30 C28 C27 C35")]


def order(f, fn=None):
    out = []
    for k, specs in FN:
        if fn and fn.startswith("engine.py") and k in fn:
            return specs.split() + ["C36"]
    for c in ORDER.get(f, "C36 " + VAL).split():
        if c not in out:
            out.append(c)
    return out


def check(repo, spec, seconds, q):
    os.environ["COLOSSEUM_REPO"] = repo
    from pyai import run

    def go():
        try:
            I = run.setup(spec, 1, False)
        except run.ImportRaises as e:
            return "import raises"
        except run.Broken as e:
            return "broken: %s" % e
        todo = run.cases(I, spec, False)
        # spread over the instances first
        todo = todo[::7] + [t for k, t in enumerate(todo) if k % 7]
        und = 0
        t0 = time.time()
        for j in todo:
            if time.time() - t0 > seconds:
                return "time"
            r = run.run_case(I, spec, j, 60)
            for lab, o in r["obls"].items():
                if o["refuted"]:
                    return "caught"
                und += len(o["undecided"])
        return "undecided" if und else "quiet"
    try:
        q.put(run.big(go))
    except BaseException as e:
        q.put("error %r" % (e,))


def one(args):
    m, seconds, specs = args
    import multiprocessing as mp
    mp = mp.get_context("fork")
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    log = []
    try:
        os.makedirs(w + "/src")
        shutil.copytree("/repo/src/colosseum", w + "/src/colosseum", ignore=shutil.ignore_patterns("__pycache__"))
        p = "%s/src/colosseum/%s.py" % (w, m["file"])
        s = open(p).read()
        open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])
        for c in specs or order(m["file"], m.get("fn")):
            q = mp.SimpleQueue()
            pr = mp.Process(target=check, args=(w, c, seconds, q))
            pr.start()
            pr.join(seconds + 120)
            if pr.is_alive():
                pr.kill()
                pr.join()
                r = "time"
            else:
                r = q.get() if not q.empty() else "died"
            if r == "caught":
                return m, c, log
            if r != "quiet":
                log.append(c + " " + r)
        return m, None, log
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main(argv):
    muts = json.load(open(argv[0]))
    jobs = int(argv[argv.index("--jobs") + 1]) if "--jobs" in argv else 6
    files = argv[argv.index("--files") + 1].split(",") if "--files" in argv else None
    specs = argv[argv.index("--specs") + 1].split(",") if "--specs" in argv else None
    if files:
        muts = [m for m in muts if m["file"] in files]
    from concurrent.futures import ProcessPoolExecutor, as_completed
    seconds = int(argv[argv.index("--seconds") + 1]) if "--seconds" in argv else 120
    out = []
    t0 = time.time()
    with ProcessPoolExecutor(jobs) as ex:
        for f in as_completed([ex.submit(one, (m, seconds, specs)) for m in muts]):
            m, c, log = f.result()
            out.append(dict(m, caught=c, log=log))
            print("%4d/%d %5.0fs %s:%d %s  %r -> %r  %s %s" % (len(out), len(muts), time.time() - t0, m["file"], m["line"], m["kind"], m["old"][-60:], m["new"][:60], c or "MISSED", log), flush=True)
            json.dump(out, open(argv[1], "w"))


if __name__ == "__main__":
    main(sys.argv[1:])
