#!/usr/bin/env python3
"""Conformance of the interpreter: runs t_*() of the files here under CPython and in the abstract interpreter, and compares.
(Development only: no check uses it.)"""
import glob
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
from pyai import run  # noqa: E402


def host(I, st, v):
    from pyai.values import Tup, Ref, Num, Obj, BoolV
    if isinstance(v, Tup):
        return tuple(host(I, st, x) for x in v.items)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Obj):
            if o.pk == "list":
                return [host(I, st, x) for x in o.pv]
            if o.pk == "tuple":
                return tuple(host(I, st, x) for x in o.pv)
            if o.pk in ("dict", "idict"):
                return {host(I, st, k): host(I, st, x) for k, x in I.B.pview(st, o).values()}
            if o.pk == "set":
                return set(host(I, st, x) for x, _ in I.B.pview(st, o).values())
            if o.pk is not None:
                return host(I, st, o.pv)
        return ("object", str(type(o)))
    if isinstance(v, Num):
        return float(v.p.t[0][1]) if v.p.t else 0
    return v


def norm(x):
    if isinstance(x, float):
        return round(x, 9)
    if isinstance(x, (list, tuple)):
        return type(x)(norm(y) for y in x) if type(x) in (list, tuple) else [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def main():
    from pyai.interp import Interp, Cx, NONE
    from pyai.values import Abrupt, Raise, FnO
    from pyai import vp
    bad = n = 0
    only = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(HERE, "c_*.py"))):
        name = os.path.basename(f)[:-3]
        spec = importlib.util.spec_from_file_location(name, f)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        I = Interp({name: f[:-3]}, os.path.join(run.VERIF, "shims"), seed=1)
        I.thorough = False
        vp.namespace(I)
        I.roots = {name: HERE}
        I.find_module_ = I.find_module
        I.find_module = lambda x, f=f, name=name, I=I: (f, False) if x == name else I.find_module_(x)
        res = I.load(I.st, name)
        if len(res) != 1 or isinstance(res[0][1], Abrupt):
            r = res[0][1]
            print("IMPORT", name, vp.raise_text(I, res[0][0], r) if isinstance(r, Raise) else (r.why, r.site))
            bad += 1
            continue
        st, ref = res[0]
        for k in [k for k in vars(m) if k.startswith("t_")]:
            if only and k not in only:
                continue
            n += 1
            try:
                want = getattr(m, k)()
            except Exception as e:
                want = "raises " + type(e).__name__ + str(e)
            try:
                rs = I.call(st.fork(), st.get(ref).ns[k], [], {}, Cx(None, ref, f, k), NONE)
                got = []
                for s, r in rs:
                    if isinstance(r, Raise):
                        got.append("raises " + vp.raise_text(I, s, r))
                    elif isinstance(r, Abrupt):
                        got.append("stuck %s %s" % (r.why, r.site))
                    else:
                        got.append(host(I, s, r))
            except Exception as e:
                import traceback
                got = ["crash " + traceback.format_exc()]
            if isinstance(want, str) and want.startswith("raises "):
                ok = len(got) == 1 and isinstance(got[0], str) and got[0].startswith(want.split("(")[0][:12])
            else:
                ok = len(got) == 1 and norm(got[0]) == norm(want)
            if not ok:
                bad += 1
                print("DIFF %s.%s\n   want %r\n   got  %s" % (name, k, want, got))
    print(n, "programs,", bad, "differences")


run.big(main)
