"""Driver: analyse the program together with the specification of one property."""
import json
import multiprocessing
import os
import queue
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COLOSSEUM_REPO", "/repo")
PKG = os.path.join(REPO, "src", "colosseum")
MODULES = ["colosseum", "colosseum.constants", "colosseum.units", "colosseum.colors", "colosseum.shapes",
           "colosseum.wrappers", "colosseum.parser", "colosseum.validators", "colosseum.exceptions",
           "colosseum.dimensions", "colosseum.engine", "colosseum.declaration"]


class Broken(Exception):
    """the analysis could not be set up"""


class ImportRaises(Broken):
    """importing the package raises an exception"""


def big(fn, *a):
    """run in a thread with a large stack"""
    sys.setrecursionlimit(300000)
    threading.stack_size(768 * 1024 * 1024)
    box = {}

    def go():
        try:
            box["r"] = fn(*a)
        except BaseException as e:
            box["e"] = e
            box["t"] = traceback.format_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in box:
        if not isinstance(box["e"], (Broken, SystemExit)):
            sys.stderr.write(box["t"])
        raise box["e"]
    return box["r"]


def setup(spec, seed, thorough):
    from .interp import Interp
    from .values import Abrupt, Raise
    from . import vp
    I = Interp({"colosseum": PKG, "spec": os.path.join(VERIF, "harness")}, os.path.join(VERIF, "shims"), seed=seed)
    I.thorough = thorough
    vp.namespace(I)
    st = I.st
    for m in MODULES + ["spec." + spec]:
        if m.startswith("colosseum.") and I.find_module(m)[0] is None:
            continue
        res = I.load(st, m)
        if len(res) != 1:
            raise Broken("importing %s has %d outcomes" % (m, len(res)))
        st, r = res[0]
        if isinstance(r, Raise):
            raise ImportRaises("importing %s raises %s" % (m, vp.raise_text(I, st, r)))
        if isinstance(r, Abrupt):
            raise Broken("importing %s: unmodelled construct %s at %s" % (m, r.why, r.site))
    I.st = st
    I.freeze(st)
    I.import_modules = dict(I.modules)
    I.import_functions = len(I.functions)
    return I


def cases(I, spec, thorough, only=None):
    """[(case name, item index or None, item description, reversed set order)]"""
    from .values import FnO
    st = I.st
    mod = st.get(I.modules["spec." + spec])
    out = []
    for name, v in mod.ns.items():
        if not name.startswith("case_") or (only and only not in name):
            continue
        f = st.get(v)
        if not isinstance(f, FnO):
            continue
        at = f.attrs if hasattr(f, "attrs") else {}
        if at.get("thorough") and not thorough:
            continue
        over = at.get("over")
        if thorough and at.get("more") is not None:
            over = at.get("more")
        orders = [False, True] if at.get("orders") else [False]
        n = None
        if over is not None:
            n = len(I.seq_items(st, over))
            if n == 0:
                raise Broken("the case %s has no instances" % name)
        for r in orders:
            for i in (range(n) if n is not None else [None]):
                out.append((name, i, r))
    return out


def run_case(I, spec, job, seconds):
    from .interp import Budget, Cx, NONE
    from .values import Abrupt, Raise, Stuck
    from . import vp
    name, i, rev = job
    base = I.st
    st = base.fork()
    I.modules = dict(I.import_modules)
    I.obls = {}
    I.events = {}
    I.functions = set()
    I.callsites = set()
    I.stucks = {}
    I.stack = []
    I.set_rev = rev
    I.ranges, I.toks = {}, {}
    I.merges = I.splits = 0
    I.steps = 0
    I.deadline = time.time() + seconds
    mod = I.modules["spec." + spec]
    f = st.get(mod).ns[name]
    over = st.get(f).attrs
    args, text = [], ""
    if i is not None:
        item = I.seq_items(st, over.get("more") if I.thorough and over.get("more") is not None else over["over"])[i]
        args = [item]
        text = vp.describe(st, item)
    label = name[5:] + (("[" + text + "]") if text else "")
    ends = 0
    cx = Cx(None, mod, os.path.join(VERIF, "harness", spec + ".py"), name)
    t0 = time.time()
    try:
        for s, r in I.call(st, f, args, {}, cx, NONE):
            ends += 1
            if isinstance(r, Raise):
                vp.uncaught(I, s, r, label + ": no exception leaves the case")
            elif isinstance(r, Stuck):
                vp.record(I, label + ": analysis", "undecided", "unmodelled construct: %s at %s" % (r.why, r.site))
    except Budget as e:
        vp.record(I, label + ": analysis", "undecided", "budget: %s" % e)
    except RecursionError:
        vp.record(I, label + ": analysis", "undecided", "recursion limit of the analysis")
    return {"job": [name, text, rev], "obls": I.obls, "functions": sorted(I.functions), "callsites": sorted(I.callsites),
            "ends": ends, "merges": I.merges, "steps": I.steps, "wall": time.time() - t0,
            "writes": sorted("%s in %s stores %s" % (k[2], k[3], k[1]) for k in I.events)}


def worker(I, spec, jobs, results, seconds):
    while True:
        try:
            k, job = jobs.get_nowait()
        except queue.Empty:
            # the queue is filled before the workers start
            if jobs.empty():
                return
            continue
        if job is None:
            return
        try:
            results.put((k, run_case(I, spec, job, seconds)))
        except MemoryError:
            results.put((k, {"error": "out of memory", "job": [job[0], str(job[1]), job[2]]}))
        except BaseException:
            results.put((k, {"error": traceback.format_exc(), "job": [job[0], str(job[1]), job[2]]}))


def analyse(spec, seed=1, thorough=False, only=None, procs=None, seconds=None):
    t0 = time.time()
    I = setup(spec, seed, thorough)
    todo = cases(I, spec, thorough, only)
    if not todo:
        raise Broken("no cases in " + spec)
    procs = procs or min(8, os.cpu_count() or 1)
    total = 3000 if thorough else 600
    seconds = seconds or (1500 if thorough else 300)
    out = []
    if procs == 1 or len(todo) == 1:
        for j in todo:
            out.append(run_case(I, spec, j, seconds))
    else:
        mp = multiprocessing.get_context("fork")
        jobs, results = mp.Queue(), mp.Queue()
        for k, j in enumerate(todo):
            jobs.put((k, j))
        for _ in range(procs):
            jobs.put((None, None))
        ps = [mp.Process(target=worker, args=(I, spec, jobs, results, seconds)) for _ in range(min(procs, len(todo)))]
        for p in ps:
            p.start()
        got = {}
        end = time.time() + total
        while len(got) < len(todo):
            try:
                k, r = results.get(timeout=2)
                got[k] = r
                if time.time() > end + 60:
                    break
            except queue.Empty:
                if time.time() > end or not any(p.is_alive() for p in ps):
                    try:
                        while True:
                            k, r = results.get(timeout=1)
                            got[k] = r
                    except queue.Empty:
                        break
        for p in ps:
            if p.is_alive():
                p.terminate()
        for p in ps:
            p.join()
        for k, j in enumerate(todo):
            out.append(got.get(k) or {"error": "not finished within the time limit", "job": [j[0], str(j[1]), j[2]]})
    return merge(I, spec, todo, out, time.time() - t0)


def merge(I, spec, todo, out, wall):
    obls = {}
    functions, callsites, writes = set(), set(), set()
    steps = merges = ends = 0
    slow = []
    for r in out:
        if "error" in r:
            obls.setdefault(str(r["job"]) + ": analysis", new())["undecided"].append(r["error"])
            continue
        for lab, o in r["obls"].items():
            d = obls.setdefault(lab, new())
            d["proved"] += o["proved"]
            d["refuted"].extend(o["refuted"])
            d["known"].extend(o.get("known", []))
            d["undecided"].extend(o["undecided"])
            d["more"] += o.get("refuted_more", 0) + o.get("undecided_more", 0) + o.get("known_more", 0)
        functions.update(map(tuple, r["functions"]))
        callsites.update(map(tuple, r["callsites"]))
        writes.update(r["writes"])
        steps += r["steps"]
        merges += r["merges"]
        ends += r["ends"]
        slow.append((round(r["wall"], 2), r["job"], r["steps"]))
    slow.sort(reverse=True, key=lambda x: x[0])
    pk = PKG + os.sep
    return {"obls": obls, "functions": sorted("%s:%s" % (os.path.basename(f), q) for f, q in functions if f.startswith(pk)),
            "callsites": sum(1 for c in callsites if c[0].startswith(pk)), "writes": sorted(writes),
            "steps": steps, "merges": merges, "ends": ends, "jobs": len(todo), "wall": wall, "slow": slow[:8],
            "soft": I.soft, "tainted": I.tainted,
            "files": sorted(os.path.basename(f) for f in I.files if f.startswith(pk))}


def new():
    return {"proved": 0, "refuted": [], "known": [], "undecided": [], "more": 0}
