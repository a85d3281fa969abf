"""Specification primitives: abstract inputs, assumptions and proof obligations.

A specification is a Python module of case functions that is interpreted together with
the analysed program.  It gets its inputs from here (each stands for every value of its
range) and states its obligations with prove()."""
import ast
import os
import random
from fractions import Fraction

from . import num as N
from . import strs as S
from . import names
from .num import ALL, atom, patom, pconst, psub, frac
from .strs import Str, Tok
from .values import *
from .values import sign_bool
from . import builtins as B
from .builtins import arg, then
from .interp import NATIVE, EQ0, NE0, GE0, LE0, rel, str_pred


# ------------------------------------------------------------------ inputs
def bounded(I, st, a, lo, hi):
    p = patom(a)
    ok = True
    if lo is not None:
        b = sign_bool(psub(p, pconst(frac(lo))), GE0)
        ok = ok and st.assume_sign(b.key, b.val)
    if hi is not None:
        b = sign_bool(psub(p, pconst(frac(hi))), LE0)
        ok = ok and st.assume_sign(b.key, b.val)
    r = I.ranges.get(a)
    I.ranges[a] = (frac(lo) if lo is not None else Fraction(-2000), frac(hi) if hi is not None else Fraction(3000))
    return ok


def integer(I, st, a, kw, cx, node):
    x = atom("var", a[0], "int")
    bounded(I, st, x, arg(a, kw, 1, "lo"), arg(a, kw, 2, "hi"))
    return [(st, Num(patom(x), "int"))]


def real(I, st, a, kw, cx, node):
    x = atom("var", a[0], "real")
    bounded(I, st, x, arg(a, kw, 1, "lo"), arg(a, kw, 2, "hi"))
    return [(st, Num(patom(x), "float"))]


def choose(I, st, a, kw, cx, node):
    """non-deterministic choice between several values"""
    name = a[0]
    opts = a[1:]
    if len(opts) == 1 and kw.get("of", None) is None and isinstance(opts[0], (Ref, Tup)):
        items = I.seq_items(st, opts[0])
        if items is not None:
            opts = list(items)
    out = []
    for i, o in enumerate(opts):
        s = st.fork() if i < len(opts) - 1 else st
        s.assume_pred(("choice", name, i), True)
        s.trace = (s.trace, ("spec", 0, name), ("choice", name, describe(s, o)), True)
        out.append((s, o))
    return out


def assume(I, st, a, kw, cx, node):
    v = a[0]
    res = I.call(st, v, [], {}, cx, node) if callable_spec(I, st, v) else [(st, v)]
    out = []
    for st, v in res:
        if isinstance(v, Abrupt):
            out.append((st, v))
            continue
        for st, t in I.truth(st, v, cx, node):
            if isinstance(t, Abrupt):
                out.append((st, t))
            elif t:
                out.append((st, None))
    return out


def callable_spec(I, st, v):
    return isinstance(v, Ref) and isinstance(st.get(v), FnO)


CLASSES = {"lower": "abcdefghijklmnopqrstuvwxyz", "upper": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
           "letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
           "digits": "0123456789", "space": " \t\n", "path": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789./:?"}


def word(I, st, a, kw, cx, node):
    """any string over a set of characters"""
    name = a[0]
    chars = arg(a, kw, 1, "chars")
    cs = None
    if chars is not None:
        cs = frozenset(CLASSES.get(chars, chars))
    t = Tok(name, cs, arg(a, kw, 2, "lo", 0), arg(a, kw, 3, "hi", None), "any")
    I.toks[name] = t
    return [(st, S.mk([t]))]


def numlit(I, st, a, kw, cx, node):
    """the decimal literal of a number"""
    v = a[0]
    if isinstance(v, Num):
        return [(st, S.mk([B.numtok(I, v)]))]
    return B.str_of(I, st, v, cx, node)


def hexdigit(I, st, a, kw, cx, node):
    """(a hexadecimal digit, its value)"""
    x = atom("var", a[0], "int")
    bounded(I, st, x, 0, 15)
    t = Tok(("hex", a[0]), S.HEX, 1, 1, "hex", x)
    return [(st, Tup((S.mk([t]), Num(patom(x), "int"))))]


def fresh(I, st, a, kw, cx, node):
    """an equal string that is not the same object"""
    s = a[0]
    if isinstance(s, str) and len(s) > 1:
        return [(st, (s + "\0")[:-1])]
    return [(st, s)]


# ------------------------------------------------------------------ obligations
def record(I, label, kind, info=None):
    o = I.obls.setdefault(label, {"proved": 0, "refuted": [], "undecided": [], "known": [], "raised": 0})
    if kind == "proved":
        o["proved"] += 1
    else:
        if len(o[kind]) < 4:
            o[kind].append(info)
        else:
            o.setdefault(kind + "_more", 0)
            o[kind + "_more"] += 1


def prove(I, st, a, kw, cx, node):
    v = a[0]
    label = a[1] if len(a) > 1 else "?"
    where = arg(a, kw, 2, "at")
    if not isinstance(label, str):
        label = describe(st, label)
    f = st.fork()
    res = I.call(f, v, [], {}, cx, node) if callable_spec(I, st, v) else [(f, v)]
    for s, r in res:
        if isinstance(r, Abrupt):
            settle(I, s, r, label, where, cx, node)
            continue
        for s, t in I.truth(s, r, cx, node):
            if t is False and kw.get("known") is not None:
                deviation(I, s, kw["known"], label, where, cx, node)
            else:
                settle(I, s, t, label, where, cx, node)
    return [(st, None)]


def deviation(I, s, known, label, where, cx, node):
    """An obligation fails: is it the recorded finding (its name, how it deviates), or something else?"""
    name, dev = known.items
    res = I.call(s, dev, [], {}, cx, node) if callable_spec(I, s, dev) else [(s, dev)]
    for s, r in res:
        if isinstance(r, Abrupt):
            settle(I, s, False if isinstance(r, Raise) else r, label, where, cx, node)
            continue
        for s, t in I.truth(s, r, cx, node):
            if t is not True:
                settle(I, s, t, label, where, cx, node)
                continue
            w = concretise(I, s)
            if w is None:
                record(I, label, "undecided", "no witness")
            else:
                record(I, label, "known", {"id": name, "witness": w, "path": path_of(s)})


def settle(I, s, t, label, where, cx, node):
    if t is True:
        record(I, label, "proved")
        return
    if isinstance(t, Stuck):
        record(I, label, "undecided", "unmodelled construct: %s at %s" % (t.why, t.site))
        return
    w = concretise(I, s)
    if w is None:
        record(I, label, "undecided", "no concrete witness for the failing partition: %s" % "; ".join(path_of(s)[-4:]))
        return
    info = {"witness": w, "path": path_of(s), "spec": I.site(node, cx)}
    if where is not None:
        info["at"] = describe(s, where)
    if isinstance(t, Raise):
        info["raised"] = raise_text(I, s, t)
    record(I, label, "refuted", info)


def uncaught(I, s, t, label):
    """an exception that leaves a case function"""
    w = concretise(I, s)
    if w is None:
        record(I, label, "undecided", "exception on a partition without witness: %s" % raise_text(I, s, t))
        return
    record(I, label, "refuted", {"witness": w, "path": path_of(s), "raised": raise_text(I, s, t)})


def raise_text(I, s, t):
    o = s.get(t.exc)
    cls = o.cls.name if isinstance(o.cls, BCls) else s.get(o.cls).name
    args = o.attrs.get("args")
    msg = describe(s, args) if args is not None else ""
    site, stack = t.site if t.site else (None, ())
    return "%s%s raised at %s; call path %s" % (cls, msg, fmt_site(site), " -> ".join("%s:%s %s" % x for x in stack[-6:]))


def fmt_site(s):
    return "%s:%s (%s)" % s if s else "?"


def path_of(s):
    out = []
    t = s.trace
    while t is not None:
        site, b, val = t[1], t[2], t[3]
        if isinstance(b, tuple):
            out.append("case %s = %s" % (b[1], b[2]))
        else:
            bb = b if val else b.neg()
            out.append("%s:%s %s" % (site[0], site[1], bb))
        t = t[0]
    out.reverse()
    return out


def describe(st, v, depth=0):
    if isinstance(v, Num):
        return str(v.p)
    if isinstance(v, Tup):
        return "(" + ", ".join(describe(st, x, depth + 1) for x in v.items) + ")"
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, ClsO):
            return o.name
        if isinstance(o, FnO):
            return o.qual
        if isinstance(o, Obj):
            n = o.cls.name if isinstance(o.cls, BCls) else st.get(o.cls).name
            if depth > 1:
                return n
            if o.pk in ("list", "tuple"):
                return n + "[" + ", ".join(describe(st, x, depth + 1) for x in o.pv[:6]) + "]"
            if o.pk is not None:
                return n + "(...)"
            return n + "(" + ", ".join("%s=%s" % (k, describe(st, x, depth + 2)) for k, x in list(o.attrs.items())[:5]) + ")"
        return type(o).__name__
    if isinstance(v, BCls):
        return v.name
    return repr(v)


def site_of(I, st, a, kw, cx, node):
    """where an attribute of an object was stored last / an exception was raised"""
    o = a[0]
    name = arg(a, kw, 1, "name")
    if isinstance(o, Ref):
        if name is None:
            s = I.exc_sites.get(o)
            return [(st, fmt_site(s[0]) if s else "?")]
        h = st.get(o)
        if isinstance(h, Obj):
            for k in (name, "_" + name):
                if k in h.sites:
                    return [(st, fmt_site(h.sites[k]))]
    return [(st, "?")]


def writes(I, st, a, kw, cx, node):
    """stores to objects that exist since import time"""
    return [(st, I.new_list(st, ["%s:%s in %s stores %s" % (k[2], v[0], k[3], k[1]) for k, v in sorted(I.events.items(), key=str)]))]


def aside(I, st, a, kw, cx, node):
    """the result of a call whose effects on existing objects are undone"""
    base = st.fork()
    out = []
    for s2, r in I.call(st, a[0], a[1:], kw, cx, node):
        if isinstance(r, Abrupt):
            out.append((s2, r))
            continue
        s3 = base.fork()
        for k, o in s2.ov.items():
            if k >= base.nxt:
                s3.ov[k] = o
        s3.nxt = s2.nxt
        s3.signs, s3.preds, s3.strs, s3.trace = s2.signs, s2.preds, s2.strs, s2.trace
        out.append((s3, r))
    return out


def modules_(I, st, a, kw, cx, node):
    """the names of the modules of the package"""
    out = ["colosseum"]
    d = I.roots["colosseum"]
    for base, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(base, f), d)[:-3].replace(os.sep, ".")
                if rel != "__init__":
                    out.append("colosseum." + (rel[:-len(".__init__")] if rel.endswith(".__init__") else rel))
    return [(st, I.new_list(st, out))]


def unresolved_(I, st, a, kw, cx, node):
    """names and calls of a module that don't resolve"""
    out = []
    for st, r in I.load(st, a[0], node, cx):
        if isinstance(r, Abrupt):
            out.append((st, r))
            continue
        bad, seen = names.unresolved(I, st, a[0])
        out.append((st, Tup((I.new_list(st, bad), seen))))
    return out


# ------------------------------------------------------------------ concretisation
def concretise(I, st, tries=400):
    """Values of the inputs that reach this partition, or None"""
    rng = random.Random(I.seed)
    keys = [(k, v) for k, v in st.preds.items() if k[0] != "choice"]
    toks = set()
    for k, v in keys:
        for x in k:
            if isinstance(x, Str):
                collect(x, toks)
    polys_atoms = set()
    for t in toks:
        if t.atom is not None:
            polys_atoms.update(N.base_atoms([B.tokval(t)]))
    derived = [x for x in all_atoms(st.signs) if x.kind.startswith("parse") or x.kind == "len"]
    for x in derived:
        collect(x.name[0], toks)
    plain = [t for t in toks if t.atom is None]
    formatted = [t for t in plain if isinstance(t.name, tuple) and t.name[0] in ("fmt", "fmt%")]
    for t in formatted:
        polys_atoms.update(N.base_atoms([t.name[1]]))
    base_signs = {p: s for p, s in st.signs.items() if not any(x in derived for x in all_atoms([p]))} if formatted else None
    if not keys and not derived:
        w = N.witness(st.signs, I.ranges, rng)
        return None if w is None else show(I, st, w, {})
    hints = {}
    for k, v in keys:
        if k[0] == "streq" and v and len(k[1].parts) == 1 and isinstance(k[1].parts[0], Tok):
            hints.setdefault(k[1].parts[0], []).append(k[2])
        if k[0] == "streq":
            for p in k[1].parts:
                if isinstance(p, Tok):
                    hints.setdefault(p, []).extend(fragments(k[1], p, k[2]))
        if k[0] == "str" and k[1] == "inkeys":
            for p in k[2].parts:
                if isinstance(p, Tok):
                    for c in k[3]:
                        hints.setdefault(p, []).extend(fragments(k[2], p, c))
        if k[0] == "str" and len(k) > 3 and isinstance(k[3], str):
            for p in k[2].parts:
                if isinstance(p, Tok):
                    hints.setdefault(p, []).extend([k[3], "x" + k[3], k[3] + "x", "1" + k[3]])
        if k[0] == "str" and k[1] in ("isinf", "is-inf", "isnan"):
            for p in k[2].parts:
                if isinstance(p, Tok):
                    for c in ("inf", "-inf", "nan", "infinity", "NaN"):
                        hints.setdefault(p, []).extend(fragments(k[2], p, c))
                        hints[p].append(c)
        if k[0] == "str" and k[1] in ("isfloat", "isint"):
            for p in k[2].parts:
                if isinstance(p, Tok):
                    hints.setdefault(p, []).extend(["1", "10", "2.5", "x", "0", "-3"])
    for t in list(hints):
        if isinstance(t.name, tuple) and t.name[0] == "fn":
            base = set()
            collect(t.name[2], base)
            for b in base:
                hints.setdefault(b, []).extend(hints[t])
                hints[b].extend(x for h in hints[t] if isinstance(h, str) for x in preimages(t.name[1][0], h))
    for n in range(tries):
        sv = {}
        ok = True
        for t in plain:
            if isinstance(t.name, tuple) and t.name[0] in ("fn", "fmt", "fmt%", "repr"):
                continue
            s = pick(t, hints.get(t, ()), rng)
            if s is None:
                ok = False
                break
            sv[t] = s
        if not ok:
            return None
        fixed = {}
        w = {}
        if formatted:
            # the numbers first, then what is read from their texts
            w = N.witness(base_signs, I.ranges, rng, tries=60 if n else 1500, extra_atoms=polys_atoms, wide=n % 2)
            if w is None:
                continue
            fixed.update(w)
        try:
            for x in derived:
                s = ev_str(x.name[0], sv, w)
                fixed[x] = parsed(x, s)
        except Exception:
            continue
        w = N.witness(st.signs, I.ranges, rng, tries=1 if formatted else 60 if n else 1500, extra_atoms=polys_atoms, fixed=fixed)
        if w is None:
            if not derived:
                return None
            continue
        try:
            if all(ev_pred(k, sv, w) == v for k, v in keys):
                return show(I, st, w, sv)
        except (N.Undef, Unsupported, KeyError, ValueError):
            continue
    return None


def preimages(fn, text):
    """other texts that a method of strings turns into this one"""
    if fn == "casefold":
        for a, b in (("ss", "\u00df"), ("fi", "\ufb01"), ("fl", "\ufb02"), ("st", "\ufb06"), ("s", "\u017f"), ("k", "\u212a")):
            if a in text:
                yield text.replace(a, b, 1)
    if fn in ("lower", "casefold"):
        yield text.upper()
        yield text.replace("k", "\u212a", 1)
    if fn in ("upper", "swapcase"):
        yield text.lower()
        yield text.upper().replace("SS", "\u00df", 1)
    if fn in ("strip", "lstrip", "rstrip"):
        for x in (" ", "\t", "\u00a0"):
            yield x + text
            yield text + x


def parsed(x, s):
    if x.kind == "len":
        return Fraction(len(s))
    if x.kind == "parsefloat":
        return frac(float(s))
    if x.kind == "parselit":
        return frac(ast.literal_eval(s))
    return Fraction(int(s, x.name[1]))


def all_atoms(signs):
    seen = set()
    stack = list(signs)
    while stack:
        p = stack.pop()
        for a in p.atoms():
            if a not in seen:
                seen.add(a)
                stack.extend(x for x in a.args)
    return seen


def fragments(s, tok, const):
    """what a token must be for the template to equal a constant (one token)"""
    pre, post, seen = "", "", False
    for p in s.parts:
        if p is tok or p == tok:
            seen = True
        elif isinstance(p, str):
            if seen:
                post += p
            else:
                pre += p
        else:
            return []
    if const.startswith(pre) and const.endswith(post) and len(const) >= len(pre) + len(post):
        return [const[len(pre):len(const) - len(post)]]
    return []


def collect(s, toks):
    for p in s.parts if isinstance(s, Str) else ():
        if isinstance(p, Tok) and p not in toks:
            toks.add(p)
            if isinstance(p.name, tuple) and p.name[0] == "fn":
                collect(p.name[2], toks)


def pick(t, hints, rng):
    hints = [h for h in hints if fits(t, h)]
    if hints and rng.random() < 0.7:
        return rng.choice(sorted(hints))
    cs = sorted(t.chars) if t.chars is not None else sorted("abcxyz019 -.%#,'\"(")
    n = rng.randint(t.lo, t.hi if t.hi is not None else t.lo + 6)
    return "".join(rng.choice(cs) for _ in range(n)) if cs else None


def fits(t, s):
    return len(s) >= t.lo and (t.hi is None or len(s) <= t.hi) and (t.chars is None or all(c in t.chars for c in s))


def ev_str(s, sv, w):
    if isinstance(s, str):
        return s
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p)
        elif p.atom is not None:
            v = N.ev_poly(B.tokval(p), dict(w))
            if p.kind == "hex":
                out.append("%x" % int(v))
            elif p.kind == "int":
                out.append(str(int(v)))
            elif p.kind == "float":
                out.append(repr(float(v)))
            else:
                out.append(str(int(v)) if v.denominator == 1 else repr(float(v)))
        elif isinstance(p.name, tuple) and p.name[0] == "fn":
            f = p.name[1]
            x = ev_str(p.name[2], sv, w)
            if f[0] == "slice":
                out.append(x[f[1]:f[2]])
            elif f[0] == "leval":
                out.append(ast.literal_eval(x))
            elif f[0] == "same":
                out.append(x)
            elif f[0] == "replace":
                out.append(x.replace(f[1], f[2], f[3]))
            elif f[0] in ("strip", "lstrip", "rstrip"):
                out.append(getattr(x, f[0])(f[1]))
            else:
                out.append(getattr(x, f[0])())
        elif isinstance(p.name, tuple) and p.name[0] in ("fmt", "fmt%"):
            v = N.ev_poly(p.name[1], dict(w))
            v = int(v) if p.name[3] == "int" else float(v)
            out.append(format(v, p.name[2]) if p.name[0] == "fmt" else ("%" + p.name[2]) % v)
        elif isinstance(p.name, tuple) and p.name[0] == "repr":
            raise Unsupported("representation of a text")
        else:
            out.append(sv[p])
    return "".join(out)


def ev_pred(k, sv, w):
    if k[0] == "streq":
        return ev_str(k[1], sv, w) == k[2]
    if k[0] == "streq2":
        return ev_str(k[1], sv, w) == ev_str(k[2], sv, w)
    if k[0] == "strin":
        return ev_str(k[1], sv, w) in ev_str(k[2], sv, w)
    if k[0] == "str":
        return str_pred(k, ev_str(k[2], sv, w))
    raise Unsupported("predicate " + str(k[0]))


def show(I, st, w, sv):
    out = {}
    for a, v in w.items():
        if a.kind == "var":
            out[str(a.name)] = int(v) if v.denominator == 1 else float(v)
    for t, s in sv.items():
        out[str(t.name)] = s
    return out


def namespace(I):
    if not hasattr(I, "ranges"):
        I.ranges = {}
        I.toks = {}
    fns = {"integer": integer, "real": real, "choose": choose, "assume": assume, "word": word, "numlit": numlit,
           "hexdigit": hexdigit, "fresh": fresh, "prove": prove, "site": site_of, "writes": writes, "aside": aside,
           "modules": modules_, "unresolved": unresolved_}
    ns = {n: BFn("vp." + n, f) for n, f in fns.items()}
    ns["THOROUGH"] = bool(getattr(I, "thorough", False))
    return ns
