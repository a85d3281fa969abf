"""Transfer functions of the builtin types and functions."""
import ast
import itertools
import math
import re
import string as _string
from fractions import Fraction

from . import num as N
from . import strs as S
from .num import F1, atom, integral, padd, patom, pconst, pmul, pneg, pscale, psub
from .strs import Str, Tok
from .values import *
from .values import sign_bool
from .interp import (NATIVE, EQ0, NE0, GT0, GE0, LT0, LE0, PYCMP, PYOP)

# ---------------------------------------------------------------------------- classes
object_ = BCls("object")
type_ = BCls("type", (object_,))
int_ = BCls("int", (object_,))
bool_ = BCls("bool", (int_,))
float_ = BCls("float", (object_,))
complex_ = BCls("complex", (object_,))
str_ = BCls("str", (object_,))
bytes_ = BCls("bytes", (object_,))
list_ = BCls("list", (object_,))
tuple_ = BCls("tuple", (object_,))
dict_ = BCls("dict", (object_,))
set_ = BCls("set", (object_,))
frozenset_ = BCls("frozenset", (object_,))
range_ = BCls("range", (object_,))
NoneType_ = BCls("NoneType", (object_,))
function_ = BCls("function", (object_,))
module_ = BCls("module", (object_,))
generator_ = BCls("generator", (object_,))
iterator_ = BCls("iterator", (object_,))
builtin_fn_ = BCls("builtin_function_or_method", (object_,))
method_ = BCls("method", (object_,))
property_ = BCls("property", (object_,))
staticmethod_ = BCls("staticmethod", (object_,))
classmethod_ = BCls("classmethod", (object_,))
super_ = BCls("super", (object_,))
slice_ = BCls("slice", (object_,))
NotImplementedType_ = BCls("NotImplementedType", (object_,))
enumerate_ = BCls("enumerate", (object_,))
zip_ = BCls("zip", (object_,))
map_ = BCls("map", (object_,))
filter_ = BCls("filter", (object_,))
reversed_ = BCls("reversed", (object_,))
dict_keys_ = BCls("dict_keys", (object_,))
dict_view_ = BCls("dict_view", (object_,))
mappingproxy_ = BCls("mappingproxy", (object_,))
OrderedDict_ = BCls("OrderedDict", (dict_,), "collections")
defaultdict_ = BCls("defaultdict", (dict_,), "collections")
Counter_ = BCls("Counter", (dict_,), "collections")
deque_ = BCls("deque", (list_,), "collections")
SimpleNamespace_ = BCls("SimpleNamespace", (object_,), "types")
opaque_ = BCls("opaque", (object_,))
pattern_ = BCls("Pattern", (object_,), "re")
match_ = BCls("Match", (object_,), "re")
lru_ = BCls("_lru_cache_wrapper", (object_,), "functools")
partial_ = BCls("partial", (object_,), "functools")
cachedprop_ = BCls("cached_property", (object_,), "functools")
gcm_ = BCls("_GeneratorContextManager", (object_,), "contextlib")
Ellipsis_ = BCls("ellipsis", (object_,))

ABCS = {n: BCls(n, (object_,), "collections.abc") for n in
        ("Sequence", "MutableSequence", "Mapping", "MutableMapping", "Iterable", "Iterator", "Hashable",
         "Callable", "Container", "Collection", "Sized", "Set", "MutableSet", "Generator", "Reversible")}
NUMABC = {n: BCls(n, (object_,), "numbers") for n in ("Number", "Complex", "Real", "Rational", "Integral")}

EXC = {}


def _exc(name, base=None):
    EXC[name] = BCls(name, (EXC[base],) if base else (object_,))


for _n, _b in (("BaseException", None), ("Exception", "BaseException"), ("KeyboardInterrupt", "BaseException"),
               ("SystemExit", "BaseException"), ("GeneratorExit", "BaseException"),
               ("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"), ("OverflowError", "ArithmeticError"),
               ("FloatingPointError", "ArithmeticError"),
               ("AssertionError", "Exception"), ("AttributeError", "Exception"), ("EOFError", "Exception"),
               ("ImportError", "Exception"), ("ModuleNotFoundError", "ImportError"),
               ("LookupError", "Exception"), ("IndexError", "LookupError"), ("KeyError", "LookupError"),
               ("MemoryError", "Exception"), ("NameError", "Exception"), ("UnboundLocalError", "NameError"),
               ("OSError", "Exception"), ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"),
               ("RecursionError", "RuntimeError"), ("StopIteration", "Exception"), ("SyntaxError", "Exception"),
               ("IndentationError", "SyntaxError"), ("SystemError", "Exception"), ("TypeError", "Exception"),
               ("ValueError", "Exception"), ("UnicodeError", "ValueError"), ("UnicodeDecodeError", "UnicodeError"),
               ("UnicodeEncodeError", "UnicodeError"), ("Warning", "Exception"), ("UserWarning", "Warning"),
               ("DeprecationWarning", "Warning"), ("RuntimeWarning", "Warning")):
    _exc(_n, _b)

TYPES = {c.name: c for c in (object_, type_, int_, bool_, float_, complex_, str_, bytes_, list_, tuple_, dict_, set_,
                             frozenset_, range_, property_, staticmethod_, classmethod_, super_, slice_, enumerate_,
                             zip_, map_, filter_, reversed_)}

UNHASHABLE = (list_, dict_, set_, deque_, defaultdict_, OrderedDict_, Counter_)


# ---------------------------------------------------------------------------- helpers
def method(cls, name):
    def deco(f):
        cls.methods[name] = BFn("%s.%s" % (cls.name, name), f)
        return f
    return deco


def pview(st, o):
    """dict / set payload of an object (a live view for __dict__)"""
    if o.pk == "idict":
        return {("c", k): (k, v) for k, v in st.get(o.pv).attrs.items() if not k.startswith("$")}
    return o.pv


def put(I, st, ref, pv, cx, node, what="items"):
    o = st.get(ref)
    if o.pk == "idict":
        t = o.pv
        I.note_write(st, t, "__dict__", cx, node)
        m = st.mut(t)
        site = I.site(node, cx)
        new = {}
        for k, v in m.attrs.items():
            if k.startswith("$"):
                new[k] = v
        for k, v in pv.values():
            if not (k in m.attrs and same(m.attrs[k], v)):
                m.sites[k] = site
            new[k] = v
        m.attrs = new
        return
    I.note_write(st, ref, what, cx, node)
    m = st.mut(ref)
    m.pv = pv
    m.sites["[]"] = I.site(node, cx)


def is_dict(o):
    return isinstance(o, Obj) and o.pk in ("dict", "idict")


def new_dict(st, pairs):
    """pairs: [(key, value)] with native string keys"""
    return st.new(Obj(dict_, pk="dict", pv={("c", k): (k, v) for k, v in pairs}))


def abstract(I, st, v):
    """host value -> abstract value"""
    if isinstance(v, list):
        return I.new_list(st, [abstract(I, st, x) for x in v])
    if isinstance(v, tuple):
        return Tup([abstract(I, st, x) for x in v])
    if isinstance(v, dict):
        return st.new(Obj(dict_, pk="dict", pv={("c", k): (k, abstract(I, st, x)) for k, x in v.items()}))
    if isinstance(v, (set, frozenset)):
        return st.new(Obj(set_ if isinstance(v, set) else frozenset_, pk="set", pv={("c", k): (k, True) for k in sorted(v, key=repr)}))
    if isinstance(v, NATIVE):
        return v
    raise Unsupported("host value %s" % type(v).__name__)


def nat(I, st, f, node, cx):
    out = []
    for st, v in I.native(st, f, node, cx):
        out.append((st, v if isinstance(v, Abrupt) else abstract(I, st, v)))
    return out


def thread(I, st, items, f):
    """f(st, item) -> [(st, v)], over all the items -> [(st, [v...]) | Abrupt]"""
    cur = [(st, [])]
    for it in items:
        nxt = []
        for st, vs in cur:
            if isinstance(vs, Abrupt):
                nxt.append((st, vs))
                continue
            for st, v in f(st, it):
                nxt.append((st, v if isinstance(v, Abrupt) else vs + [v]))
        cur = nxt
    return cur


def then(res, f):
    """continue a list of results"""
    out = []
    for st, v in res:
        if isinstance(v, Abrupt):
            out.append((st, v))
        else:
            out.extend(f(st, v))
    return out


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


# ---------------------------------------------------------------------------- hashing
def hashable(I, st, v):
    """True, False or None (user-defined hash)"""
    if isinstance(v, Tup):
        for x in v.items:
            h = hashable(I, st, x)
            if h is not True:
                return h
        return True
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Obj):
            for c in I.mro_of(st, o.cls):
                if c in UNHASHABLE:
                    return False
                if isinstance(c, Ref):
                    ns = st.get(c).ns
                    if "__hash__" in ns:
                        return False if ns["__hash__"] is None else None
                    if "__eq__" in ns:
                        return False
            if o.pk == "idict":
                return False
    return True


def hkey(v):
    if isinstance(v, NATIVE):
        if isinstance(v, (range, complex)):
            return ("o", repr(v))
        return ("c", v)
    if isinstance(v, Tup):
        return ("t",) + tuple(hkey(x) for x in v.items)
    if isinstance(v, Ref):
        return ("r", v.a)
    if isinstance(v, (Str, Num)):
        return ("s", v)
    if isinstance(v, BoolV):
        raise Unsupported("undetermined truth value as a key")
    if isinstance(v, BM):
        return ("m", v)
    return ("o", id(v))


def symbolic(v):
    if isinstance(v, (Str, Num)):
        return True
    if isinstance(v, Tup):
        return any(symbolic(x) for x in v.items)
    return False


def key_lookup(I, st, pv, key, cx, node):
    """[(st, (hkey, key, value) or None)]"""
    if isinstance(key, BoolV):
        out = []
        for st, t in I.branch(st, key, cx, node):
            out.extend(key_lookup(I, st, pv, t, cx, node))
        return out
    h = hashable(I, st, key)
    if h is False:
        return I.err(st, "TypeError", "unhashable type: '%s'" % I.tname(st, key), node, cx)
    if h is None:
        if not pv:
            return [(st, None)]
        raise Unsupported("user-defined hash")
    hk = hkey(key)
    e = pv.get(hk)
    if e is not None:
        return [(st, (hk, e[0], e[1]))]
    if not symbolic(key):
        cands = [(k2, e2) for k2, e2 in pv.items() if symbolic(e2[0])]
        if not cands:
            return [(st, None)]
    elif isinstance(key, Str):
        cands = [(k2, e2) for k2, e2 in pv.items() if isinstance(e2[0], Str) or (isinstance(e2[0], str) and S.may_equal(key, e2[0]))]
        if len(cands) > 6 and all(isinstance(e2[0], str) for _, e2 in cands):
            out = []
            ks = frozenset(e2[0] for _, e2 in cands)
            for st, t in I.branch(st, BoolV("p", ("str", "inkeys", key, ks), True), cx, node):
                if not t:
                    out.append((st, None))
                else:
                    out.extend(lookup_each(I, st, cands, key, cx, node, True))
            return out
    elif isinstance(key, Num):
        cands = [(k2, e2) for k2, e2 in pv.items() if isinstance(e2[0], (int, float, Num))]
    else:
        cands = [(k2, e2) for k2, e2 in pv.items() if isinstance(e2[0], Tup)]
    return lookup_each(I, st, cands, key, cx, node)


def lookup_each(I, st, cands, key, cx, node, must=False):
    out = []
    cur = [st]
    for i, (k2, e2) in enumerate(cands):
        nxt = []
        for st in cur:
            for st, e in I.eq(st, e2[0], key, cx, node):
                if isinstance(e, Abrupt):
                    out.append((st, e))
                    continue
                for st, t in I.truth(st, e, cx, node):
                    if isinstance(t, Abrupt):
                        out.append((st, t))
                    elif t:
                        out.append((st, (k2, e2[0], e2[1])))
                    else:
                        nxt.append(st)
        cur = nxt
    if not must:
        out.extend((st, None) for st in cur)
    return out


def make_set(I, st, items, cx, node, cls=None):
    ref = st.new(Obj(cls or set_, pk="set", pv={}))
    cur = [(st, None)]
    for x in items:
        nxt = []
        for st, o in cur:
            nxt.extend([(st, o)] if o is not None else set_add(I, st, ref, x, cx, node))
        cur = nxt
    return [(st, ref if o is None else o) for st, o in cur]


def set_add(I, st, ref, v, cx, node):
    out = []
    for st, hit in key_lookup(I, st, st.get(ref).pv, v, cx, node):
        if isinstance(hit, Abrupt):
            out.append((st, hit))
            continue
        if hit is None:
            pv = dict(st.get(ref).pv)
            pv[hkey(v)] = (v, True)
            put(I, st, ref, pv, cx, node)
        out.append((st, None))
    return out


def dict_set(I, st, ref, k, v, cx, node):
    o = st.get(ref)
    if o.pk == "idict" and not isinstance(k, str):
        raise Unsupported("__dict__ with a computed key")
    out = []
    for st, hit in key_lookup(I, st, pview(st, st.get(ref)), k, cx, node):
        if isinstance(hit, Abrupt):
            out.append((st, hit))
            continue
        pv = dict(pview(st, st.get(ref)))
        if hit is not None:
            pv[hit[0]] = (hit[1], v)
        else:
            pv[hkey(k)] = (k, v)
        put(I, st, ref, pv, cx, node, k if isinstance(k, str) else "items")
        out.append((st, None))
    return out


def mapping_items(I, st, v, cx, node):
    """[(st, [(k, v)...])]"""
    o = st.get(v) if isinstance(v, Ref) else None
    if is_dict(o) and not (isinstance(o.cls, Ref) and any(not isinstance(I.class_lookup(st, o.cls, m), BFn) for m in ("keys", "__getitem__", "__iter__"))):
        return [(st, list(pview(st, o).values()))]
    if isinstance(o, Obj):
        k = I.class_lookup(st, o.cls, "keys")
        if k is not None:
            out = []
            for st, ks in I.call_method(st, v, "keys", [], cx, node):
                if isinstance(ks, Abrupt):
                    out.append((st, ks))
                    continue
                for st, items in I.to_list(st, ks, cx, node):
                    if isinstance(items, Abrupt):
                        out.append((st, items))
                        continue
                    for st, vs in thread(I, st, items, lambda st, key: I.getitem(st, v, key, cx, node)):
                        out.append((st, vs if isinstance(vs, Abrupt) else list(zip(items, vs))))
            return out
    return I.err(st, "TypeError", "object is not a mapping", node, cx)


def dict_update(I, st, ref, v, cx, node):
    """[(st, None|Abrupt)]"""
    o = st.get(v) if isinstance(v, Ref) else None
    if isinstance(o, Obj) and (is_dict(o) or I.class_lookup(st, o.cls, "keys") is not None):
        res = mapping_items(I, st, v, cx, node)
    else:
        res = []
        for st, items in I.to_list(st, v, cx, node):
            if isinstance(items, Abrupt):
                res.append((st, items))
                continue
            for st, ps in thread(I, st, items, lambda st, p: I.to_list(st, p, cx, node)):
                if isinstance(ps, Abrupt):
                    res.append((st, ps))
                elif any(len(p) != 2 for p in ps):
                    res.extend(I.err(st, "ValueError", "dictionary update sequence element has wrong length", node, cx))
                else:
                    res.append((st, [tuple(p) for p in ps]))
    out = []
    for st, pairs in res:
        if isinstance(pairs, Abrupt):
            out.append((st, pairs))
            continue
        cur = [(st, None)]
        for k, x in pairs:
            nxt = []
            for st, o in cur:
                nxt.extend([(st, o)] if o is not None else dict_set(I, st, ref, k, x, cx, node))
            cur = nxt
        out.extend(cur)
    return out


def dict_proxy(I, st, ref):
    return st.new(Obj(dict_, pk="idict", pv=ref))


# ---------------------------------------------------------------------------- text
def numtok(I, v):
    """the decimal rendering of an unknown number"""
    p = v.p
    a = p.t[0][0][0] if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == 1 else None
    if v.ty == "int":
        return Tok(("dec", p), frozenset("0123456789-"), 1, None, "int", a if a is not None else p)
    return Tok(("dec", p, v.ty), S.DECCH, 1, None, "num" if v.ty != "float" else "float", a if a is not None else p)


def str_of(I, st, v, cx, node):
    if isinstance(v, (str, Str)):
        return [(st, v)]
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Obj):
            f = I.class_lookup(st, o.cls, "__str__")
            if f is not None and not isinstance(f, BFn):
                return str_result(I, I.call(st, I.bind(st, f, v, o.cls), [], {}, cx, node), cx, node)
            if I.is_exc(st, v):
                r = I.class_lookup(st, o.cls, "__repr__")
                a = o.attrs.get("args", Tup(()))
                if len(a.items) == 1 and EXC["KeyError"] not in I.mro_of(st, o.cls):
                    return str_of(I, st, a.items[0], cx, node)
                if not a.items:
                    return [(st, "")]
                return repr_(I, st, a.items[0] if len(a.items) == 1 else a, cx, node)
            if o.pk == "str":
                return [(st, o.pv)]
    return repr_(I, st, v, cx, node)


def str_result(I, res, cx, node):
    out = []
    for st, r in res:
        if isinstance(r, (Abrupt, str, Str)):
            out.append((st, r))
        else:
            out.extend(I.err(st, "TypeError", "__str__ returned non-string", node, cx))
    return out


def repr_(I, st, v, cx, node):
    if isinstance(v, NATIVE):
        return [(st, repr(v))]
    if isinstance(v, Num):
        return [(st, S.mk([numtok(I, v)]))]
    if isinstance(v, BoolV):
        out = []
        for st, t in I.branch(st, v, cx, node):
            out.append((st, repr(t)))
        return out
    if isinstance(v, Str):
        # the quotes depend on the content; exact if no quote, backslash or control char can occur
        if all(isinstance(p, str) and not any(c in "'\"\\" or not c.isprintable() for c in p) or
               (isinstance(p, Tok) and p.chars is not None and not any(c in "'\"\\" or not c.isprintable() for c in p.chars)) for p in v.parts):
            return [(st, S.mk(["'", v, "'"]))]
        return [(st, S.mk([Tok(("repr", v), None, 2, None, "any")]))]
    if isinstance(v, Tup):
        out = []
        for st, rs in thread(I, st, v.items, lambda st, x: repr_(I, st, x, cx, node)):
            if isinstance(rs, Abrupt):
                out.append((st, rs))
            else:
                out.append((st, S.mk(["("] + joinp(rs) + ([",)"] if len(rs) == 1 else [")"]))))
        return out
    if isinstance(v, BCls):
        return [(st, "<class '%s'>" % v.name)]
    if isinstance(v, BFn):
        return [(st, "<built-in function %s>" % v.name)]
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Obj):
            f = I.class_lookup(st, o.cls, "__repr__")
            if f is not None and not isinstance(f, BFn):
                return str_result(I, I.call(st, I.bind(st, f, v, o.cls), [], {}, cx, node), cx, node)
            return raw_repr(I, st, v, cx, node)
        if isinstance(o, ClsO):
            return [(st, "<class '%s.%s'>" % (o.mod, o.qual))]
        if isinstance(o, FnO):
            return [(st, "<function %s at 0x%x>" % (o.qual, v.a))]
        if isinstance(o, ModO):
            return [(st, "<module '%s'>" % o.name)]
    return [(st, "<object>")]


def joinp(rs, sep=", "):
    out = []
    for i, r in enumerate(rs):
        if i:
            out.append(sep)
        out.append(r)
    return out


def raw_repr(I, st, v, cx, node):
    """repr() of builtin payloads, ignoring user-defined __repr__"""
    o = st.get(v)
    if o.pk in ("list", "tuple"):
        out = []
        for st, rs in thread(I, st, o.pv, lambda st, x: repr_(I, st, x, cx, node)):
            if isinstance(rs, Abrupt):
                out.append((st, rs))
            elif o.pk == "list":
                out.append((st, S.mk(["["] + joinp(rs) + ["]"])))
            else:
                out.append((st, S.mk(["("] + joinp(rs) + ([",)"] if len(rs) == 1 else [")"]))))
        return out
    if o.pk in ("dict", "idict"):
        out = []
        for st, rs in thread(I, st, pview(st, o).values(), lambda st, kv: thread(I, st, kv, lambda st, x: repr_(I, st, x, cx, node))):
            if isinstance(rs, Abrupt):
                out.append((st, rs))
            else:
                out.append((st, S.mk(["{"] + joinp([S.mk([k, ": ", x]) for k, x in rs]) + ["}"])))
        return out
    if o.pk == "set":
        if not o.pv:
            return [(st, "set()")]
        out = []
        for st, rs in thread(I, st, [k for k, _ in o.pv.values()], lambda st, x: repr_(I, st, x, cx, node)):
            out.append((st, rs if isinstance(rs, Abrupt) else S.mk(["{"] + joinp(rs) + ["}"])))
        return out
    if o.pk is not None:
        return repr_(I, st, o.pv, cx, node)
    if I.is_exc(st, v):
        name = o.cls.name if isinstance(o.cls, BCls) else st.get(o.cls).name
        out = []
        for st, r in thread(I, st, o.attrs.get("args", Tup(())).items, lambda st, x: repr_(I, st, x, cx, node)):
            out.append((st, r if isinstance(r, Abrupt) else S.mk([name, "("] + joinp(r) + [")"])))
        return out
    name = o.cls.name if isinstance(o.cls, BCls) else st.get(o.cls).mod + "." + st.get(o.cls).qual
    return [(st, "<%s object at 0x%x>" % (name, v.a))]


def format_(I, st, v, spec, cx, node):
    if spec == "":
        return str_of(I, st, v, cx, node)
    if isinstance(v, NATIVE) and isinstance(spec, str):
        return nat(I, st, lambda: format(v, spec), node, cx)
    if isinstance(v, Num) and isinstance(spec, str):
        return [(st, S.mk([Tok(("fmt", v.p, spec, v.ty), S.NUMCH | frozenset("%, "), 1, None, "any")]))]
    if isinstance(v, Ref) and isinstance(st.get(v), Obj):
        f = I.class_lookup(st, st.get(v).cls, "__format__")
        if f is not None and not isinstance(f, BFn):
            return I.call(st, I.bind(st, f, v, st.get(v).cls), [spec], {}, cx, node)
        return I.err(st, "TypeError", "unsupported format string", node, cx)
    raise Unsupported("format specification")


def percent_format(I, st, s, v, cx, node):
    if not isinstance(s, str):
        raise Unsupported("% formatting of an unknown string")
    pos = 0
    plan = []
    for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa%])", s):
        plan.append(s[pos:m.start()])
        plan.append((m.group(1), m.group(2), m.group(3)))
        pos = m.end()
    plan.append(s[pos:])
    if any("%" in x for x in plan if isinstance(x, str)):
        return I.err(st, "ValueError", "unsupported format character", node, cx)
    if any(not isinstance(p, str) and p[0] is not None for p in plan):
        items = None
    else:
        items = list(v.items) if isinstance(v, Tup) else [v]
        need = sum(1 for p in plan if not isinstance(p, str) and p[2] != "%")
        if need != len(items):
            o = st.get(v) if isinstance(v, Ref) else None
            if not (need == 0 and is_dict(o)):
                return I.err(st, "TypeError", "wrong number of arguments for format string", node, cx)

    def one(st, p):
        if isinstance(p, str):
            return [(st, p)]
        key, flags, conv = p
        if conv == "%":
            return [(st, "%")]
        if key is not None:
            res = I.getitem(st, v, key, cx, node)
        else:
            res = [(st, items[plan_index[id(p)]])]

        def render(st, x):
            if conv in "sra":
                f = str_of if conv == "s" else repr_
                return then(f(I, st, x, cx, node), lambda st, t: [(st, t)] if not flags else nat(I, st, lambda: ("%" + flags + "s") % t, node, cx) if isinstance(t, str) else [(st, t)])
            if isinstance(x, (int, float)):
                return nat(I, st, lambda: ("%" + flags + conv) % x, node, cx)
            if isinstance(x, Num):
                if conv == "d" and x.ty == "int" and not flags:
                    return repr_(I, st, x, cx, node)
                return [(st, S.mk([Tok(("fmt%", x.p, flags + conv, x.ty), S.NUMCH, 1, None, "any")]))]
            return I.err(st, "TypeError", "%%%s format: a number is required" % conv, node, cx)

        return then(res, render)

    plan_index = {}
    n = 0
    for p in plan:
        if not isinstance(p, str) and p[2] != "%":
            plan_index[id(p)] = n
            n += 1
    return [(st, r if isinstance(r, Abrupt) else S.mk(r)) for st, r in thread(I, st, plan, one)]


def str_format(I, st, args, kw, cx, node):
    s, args = args[0], list(args[1:])
    if not isinstance(s, str):
        # literal braces in an unknown part would be fields
        if isinstance(s, Str) and all(isinstance(p, str) or (p.chars is not None and "{" not in p.chars and "}" not in p.chars) for p in s.parts) \
                and not any("{" in p or "}" in p for p in s.parts if isinstance(p, str)):
            return [(st, s)]
        raise Unsupported("format of an unknown string")
    try:
        plan = list(_string.Formatter().parse(s))
    except ValueError as e:
        return I.err(st, "ValueError", str(e), node, cx)
    auto = [0]
    flat = []
    for lit, field, spec, conv in plan:
        if lit:
            flat.append(lit)
        if field is not None:
            flat.append((field, spec, conv))

    def one(st, p):
        if isinstance(p, str):
            return [(st, p)]
        field, spec, conv = p
        if spec and "{" in spec:
            raise Unsupported("nested format field")
        m = re.match(r"^([^.\[]*)((?:\.\w+|\[[^\]]+\])*)$", field)
        if not m:
            raise Unsupported("format field")
        head, rest = m.group(1), m.group(2)
        if head == "":
            i = auto_index[id(p)]
            if i >= len(args):
                return I.err(st, "IndexError", "Replacement index out of range", node, cx)
            res = [(st, args[i])]
        elif head.isdigit():
            if int(head) >= len(args):
                return I.err(st, "IndexError", "Replacement index out of range", node, cx)
            res = [(st, args[int(head)])]
        elif head in kw:
            res = [(st, kw[head])]
        else:
            return I.err(st, "KeyError", head, node, cx)
        for at in re.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
            if at[0]:
                res = then(res, lambda st, x, n=at[0]: I.getattr_(st, x, n, cx, node))
            else:
                k = int(at[1]) if at[1].isdigit() else at[1]
                res = then(res, lambda st, x, k=k: I.getitem(st, x, k, cx, node))
        if conv == "r":
            res = then(res, lambda st, x: repr_(I, st, x, cx, node))
        elif conv == "s":
            res = then(res, lambda st, x: str_of(I, st, x, cx, node))
        return then(res, lambda st, x: format_(I, st, x, spec or "", cx, node))

    auto_index = {}
    for p in flat:
        if not isinstance(p, str) and re.match(r"^[^.\[]*", p[0]).group(0) == "":
            auto_index[id(p)] = auto[0]
            auto[0] += 1
    return [(st, r if isinstance(r, Abrupt) else S.mk(r)) for st, r in thread(I, st, flat, one)]


# ---------------------------------------------------------------------------- str methods
def _sself(I, st, v):
    if isinstance(v, Ref) and isinstance(st.get(v), Obj) and st.get(v).pk == "str":
        return st.get(v).pv
    return v


def derive(fn, s, chars=None, lo=0, hi=None):
    """a token for the result of a string function on an unknown string"""
    if chars is None and fn[0] in ("slice", "strip", "lstrip", "rstrip"):
        ps = list(S.parts(s))
        if fn[0] == "slice" and len(fn) == 3:
            # known text that the slice certainly leaves out
            if isinstance(fn[2], int) and fn[2] < 0 and isinstance(ps[-1], str):
                ps[-1] = ps[-1][:max(len(ps[-1]) + fn[2], 0)]
            if isinstance(fn[1], int) and fn[1] > 0 and isinstance(ps[0], str):
                ps[0] = ps[0][fn[1]:]
        if all(isinstance(p, str) or p.chars is not None for p in ps):
            chars = frozenset().union(*[frozenset(p) if isinstance(p, str) else p.chars for p in ps])
    return S.mk([Tok(("fn", fn, s), chars, lo, hi, "any")])


def str_method(name):
    def deco(f):
        def g(I, st, args, kw, cx, node):
            s = _sself(I, st, args[0])
            if not isinstance(s, (str, Str)):
                return I.err(st, "TypeError", "descriptor '%s' requires a str" % name, node, cx)
            rest = [_sself(I, st, a) for a in args[1:]]
            if isinstance(s, str) and all(isinstance(a, NATIVE) or (isinstance(a, Tup) and all(isinstance(x, str) for x in a.items)) for a in rest) and all(isinstance(x, NATIVE) for x in kw.values()) and name != "format":
                host = [tuple(a.items) if isinstance(a, Tup) else a for a in rest]
                return nat(I, st, lambda: getattr(s, name)(*host, **kw), node, cx)
            return f(I, st, s, rest, kw, cx, node)
        str_.methods[name] = BFn("str." + name, g)
        return f
    return deco


def pred(I, st, v):
    return [(st, v)]


@str_method("startswith")
def _(I, st, s, a, kw, cx, node):
    return affix(I, st, s, a, S.startswith, "startswith", cx, node)


@str_method("endswith")
def _(I, st, s, a, kw, cx, node):
    return affix(I, st, s, a, S.endswith, "endswith", cx, node)


def affix(I, st, s, a, f, name, cx, node):
    if len(a) != 1:
        raise Unsupported("str.%s with positions" % name)
    x = a[0]
    if isinstance(x, Tup):
        cur, out = [st], []
        for y in x.items:
            nxt = []
            for st in cur:
                for st, r in affix(I, st, s, [y], f, name, cx, node):
                    if isinstance(r, Abrupt):
                        out.append((st, r))
                        continue
                    for st, t in I.truth(st, r, cx, node):
                        (out.append((st, True)) if t is True else nxt.append(st) if t is False else out.append((st, t)))
            cur = nxt
        return out + [(st, False) for st in cur]
    if isinstance(x, str):
        r = f(s, x)
        return [(st, r if r is not None else BoolV("p", ("str", name, s, x), True))]
    if isinstance(x, Str):
        raise Unsupported("str.%s of an unknown string" % name)
    return I.err(st, "TypeError", "%s first arg must be str or a tuple of str" % name, node, cx)


@str_method("split")
def _(I, st, s, a, kw, cx, node):
    sep = a[0] if a else kw.get("sep")
    mx = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
    if sep is not None and not isinstance(sep, str):
        return I.err(st, "TypeError", "must be str or None", node, cx)
    if isinstance(s, str):
        return nat(I, st, lambda: s.split(sep, mx), node, cx)
    r = S.split(s, sep, mx)
    if r is None:
        maybe = [p for p in s.parts if isinstance(p, Tok) and p.lo == 0]
        if sep is None and maybe and S.disjoint(s, S.WS):
            # partition: is a part that can be empty empty?
            t = maybe[0]
            some = Tok(("fn", ("same",), S.mk([t])), t.chars, 1, t.hi, t.kind, t.atom)

            def f(st, full):
                x = S.mk([(some if full else "") if p == t else p for p in s.parts])
                return I.call(st, I.getattr_(st, x, "split", cx, node)[0][1], [sep, mx], {}, cx, node)
            return then(I.branch(st, BoolV("p", ("str", "truth", S.mk([t])), True), cx, node), f)
        raise Unsupported("split of an unknown string")
    return [(st, I.new_list(st, r))]


@str_method("rsplit")
def _(I, st, s, a, kw, cx, node):
    sep = a[0] if a else kw.get("sep")
    mx = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
    if isinstance(s, str):
        return nat(I, st, lambda: s.rsplit(sep, mx), node, cx)
    r = S.split(s, sep, -1)
    if r is None:
        raise Unsupported("rsplit of an unknown string")
    if mx != -1 and sep is not None and len(r) > mx + 1:
        head = r[:len(r) - mx]
        r = [S.mk(joinp(head, sep))] + r[len(r) - mx:]
    elif mx != -1:
        raise Unsupported("rsplit")
    return [(st, I.new_list(st, r))]


def partition_(right):
    def f(I, st, s, a, kw, cx, node):
        sep = a[0]
        if not isinstance(sep, str) or not isinstance(s, Str):
            raise Unsupported("partition")
        r = S.split(s, sep, -1)
        if r is None:
            raise Unsupported("partition of an unknown string")
        if len(r) == 1:
            return [(st, Tup(("", "", r[0]) if right else (r[0], "", "")))]
        if right:
            return [(st, Tup((S.mk(joinp(r[:-1], sep)), sep, r[-1])))]
        return [(st, Tup((r[0], sep, S.mk(joinp(r[1:], sep)))))]
    return f


str_method("partition")(partition_(False))
str_method("rpartition")(partition_(True))


def strip_(name, l, r):
    @str_method(name)
    def f(I, st, s, a, kw, cx, node):
        ch = a[0] if a else None
        if isinstance(s, Str) and (ch is None or isinstance(ch, str)):
            x, t, ps = S.strip(s, ch, l, r)
            if x is not None:
                return [(st, x)]
            cs = S.WS if ch is None else ch
            if len(s.parts) > 1 and t is not None and t.lo == 0 and S.avoids(t, cs):
                # partition: is a part that can be empty empty?
                some = Tok(("fn", ("same",), S.mk([t])), t.chars, 1, t.hi, t.kind, t.atom)

                def f(st, full):
                    x = S.mk([(some if full else "") if p == t else p for p in s.parts])
                    return I.call(st, I.getattr_(st, x, name, cx, node)[0][1], [ch], {}, cx, node)
                return then(I.branch(st, BoolV("p", ("str", "truth", S.mk([t])), True), cx, node), f)
            # the first (last) part is stripped, the others stay
            if len(ps) > 1:
                if l and not S.firm(ps, cs) and isinstance(ps[0], Tok) and S.firm(ps[1:], cs):
                    ps[0:1] = S.parts(derive(("lstrip", ch), S.mk([ps[0]])))
                    return I.call(st, I.getattr_(st, S.mk(ps), "rstrip", cx, node)[0][1], [ch], {}, cx, node) if r else [(st, S.mk(ps))]
                if r and not S.firm(ps, cs, True) and isinstance(ps[-1], Tok) and S.firm(ps[:-1], cs, True) and (not l or S.firm(ps, cs)):
                    ps[-1:] = S.parts(derive(("rstrip", ch), S.mk([ps[-1]])))
                    return [(st, S.mk(ps))]
            return [(st, derive((name, ch), s))]
        return I.err(st, "TypeError", "strip arg must be None or str", node, cx)


strip_("strip", True, True)
strip_("lstrip", True, False)
strip_("rstrip", False, True)


def case_(name, f):
    @str_method(name)
    def g(I, st, s, a, kw, cx, node):
        r = f(s) if f else None
        if r is None:
            if name in ("lower", "upper", "casefold", "swapcase") and all(isinstance(p, str) or (p.chars is not None and all(ord(c) < 128 for c in p.chars)) for p in s.parts):
                # character by character
                out = []
                fn = "lower" if name == "casefold" else name
                for p in s.parts:
                    if isinstance(p, str):
                        out.append(getattr(p, name)())
                    elif p.kind in ("int", "float", "num") or not any(getattr(c, name)() != c for c in p.chars):
                        out.append(p)
                    else:
                        out.append(Tok(("fn", (fn,), S.mk([p])), frozenset(getattr(c, name)() for c in p.chars), p.lo, p.hi, p.kind, p.atom))
                return [(st, S.mk(out))]
            if len(s.parts) == 1:
                return [(st, derive((name,), s, None, s.parts[0].lo))]
            raise Unsupported("%s of an unknown string" % name)
        return [(st, r)]


case_("lower", S.lower)
case_("casefold", S.lower)
case_("upper", S.upper)
case_("title", None)
case_("capitalize", None)
case_("swapcase", None)


@str_method("replace")
def _(I, st, s, a, kw, cx, node):
    if isinstance(s, str) and isinstance(a[0], str) and isinstance(a[1], Str):
        return [(st, S.mk(joinp(s.split(a[0]), a[1])))]
    if not (isinstance(a[0], str) and isinstance(a[1], (str, Str))):
        if isinstance(a[0], Str) or isinstance(a[1], Str):
            raise Unsupported("replace")
        return I.err(st, "TypeError", "replace() argument must be str", node, cx)
    n = a[2] if len(a) > 2 else -1
    if S.contains(s, a[0]) is False:
        return [(st, s)]
    r = S.replace(s, a[0], a[1], n) if isinstance(a[1], str) else None
    if r is None:
        if len(s.parts) == 1 and isinstance(s.parts[0], Tok) and isinstance(a[1], str):
            return [(st, derive(("replace", a[0], a[1], n), s))]
        raise Unsupported("replace in an unknown string")
    return [(st, r)]


@str_method("count")
def _(I, st, s, a, kw, cx, node):
    r = S.count(s, a[0]) if isinstance(a[0], str) and len(a) == 1 else None
    if r is None:
        if isinstance(a[0], str) and S.contains(s, a[0]) is False:
            return [(st, 0)]
        raise Unsupported("count in an unknown string")
    return [(st, r)]


def find_(name, right, raising):
    @str_method(name)
    def f(I, st, s, a, kw, cx, node):
        r = S.find(s, a[0], right) if isinstance(a[0], str) and len(a) == 1 else None
        if r is None:
            raise Unsupported("%s in an unknown string" % name)
        if r == -1 and raising:
            return I.err(st, "ValueError", "substring not found", node, cx)
        return [(st, r)]


find_("find", False, False)
find_("rfind", True, False)
find_("index", False, True)
find_("rindex", True, True)


@str_method("removeprefix")
def _(I, st, s, a, kw, cx, node):
    def f(st, t):
        if not t:
            return [(st, s)]
        r = S.slice_(s, len(a[0]), None)
        if r is None:
            raise Unsupported("removeprefix")
        return [(st, r)]
    return then(then(affix(I, st, s, a, S.startswith, "startswith", cx, node), lambda st, r: I.truth(st, r, cx, node)), f)


@str_method("removesuffix")
def _(I, st, s, a, kw, cx, node):
    def f(st, t):
        if not t:
            return [(st, s)]
        r = S.slice_(s, None, -len(a[0])) if a[0] else s
        if r is None:
            return [(st, derive(("slice", None, -len(a[0])), s))] if len(s.parts) == 1 else I.unsupported(st, "removesuffix", node, cx)
        return [(st, r)]
    return then(then(affix(I, st, s, a, S.endswith, "endswith", cx, node), lambda st, r: I.truth(st, r, cx, node)), f)


for _nm in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric", "isdecimal", "isidentifier", "isascii"):
    def _mk(nm):
        @str_method(nm)
        def f(I, st, s, a, kw, cx, node):
            # decided if every character that can occur agrees
            lits = [c for p in s.parts if isinstance(p, str) for c in p]
            toks = [p for p in s.parts if isinstance(p, Tok)]
            if nm in ("isdigit", "isalpha", "isalnum", "isnumeric", "isdecimal", "isspace"):
                if any(not getattr(c, nm)() for c in lits):
                    return [(st, False)]
                if S.min_len(s) >= 1 and all(t.chars is not None and all(getattr(c, nm)() for c in t.chars) for t in toks):
                    return [(st, True)]
                if any(t.lo >= 1 and t.chars is not None and not any(getattr(c, nm)() for c in t.chars) for t in toks):
                    return [(st, False)]
            return [(st, BoolV("p", ("str", nm, s), True))]
    _mk(_nm)


@str_method("join")
def _(I, st, s, a, kw, cx, node):
    out = []
    for st, items in I.to_list(st, a[0], cx, node):
        if isinstance(items, Abrupt):
            out.append((st, items))
            continue
        items = [_sself(I, st, x) for x in items]
        if any(not isinstance(x, (str, Str)) for x in items):
            out.extend(I.err(st, "TypeError", "sequence item: expected str instance", node, cx))
        else:
            out.append((st, S.mk(joinp(items, s))))
    return out


str_.methods["format"] = BFn("str.format", str_format)
str_.methods["join"] = BFn("str.join", lambda I, st, a, kw, cx, node: _join(I, st, a, kw, cx, node))


def _join(I, st, a, kw, cx, node):
    s = _sself(I, st, a[0])

    def f(st, items):
        items = [_sself(I, st, x) for x in items]
        if any(not isinstance(x, (str, Str)) for x in items):
            return I.err(st, "TypeError", "sequence item: expected str instance", node, cx)
        return [(st, S.mk(joinp(items, s)))]
    return then(I.to_list(st, a[1], cx, node), f)


@method(str_, "format_map")
def _(I, st, a, kw, cx, node):
    return then(mapping_items(I, st, a[1], cx, node), lambda st, items: str_format(I, st, [a[0]], {k: v for k, v in items}, cx, node))


for _nm in ("zfill", "ljust", "rjust", "center", "splitlines", "expandtabs", "encode", "translate"):
    def _mk2(nm):
        @str_method(nm)
        def f(I, st, s, a, kw, cx, node):
            raise Unsupported("str." + nm)
    _mk2(_nm)


@method(str_, "__len__")
def _(I, st, a, kw, cx, node):
    return len_(I, st, a[0], cx, node)


@method(str_, "__contains__")
def _(I, st, a, kw, cx, node):
    return I.contains(st, a[1], _sself(I, st, a[0]), cx, node)


@method(str_, "__eq__")
def _(I, st, a, kw, cx, node):
    x, y = _sself(I, st, a[0]), _sself(I, st, a[1])
    if isinstance(y, (str, Str)):
        return I.eq(st, x, y, cx, node)
    return [(st, NotImplemented)]


# ---------------------------------------------------------------------------- list / tuple
def lpv(I, st, v):
    if isinstance(v, Tup):
        return v.items
    o = st.get(v) if isinstance(v, Ref) else None
    if isinstance(o, Obj) and o.pk in ("list", "tuple"):
        return o.pv
    raise Unsupported("sequence expected")


def lput(I, st, ref, items, cx, node):
    I.note_write(st, ref, "items", cx, node)
    m = st.mut(ref)
    m.pv = tuple(items)
    m.sites["[]"] = I.site(node, cx)


@method(list_, "__init__")
def _(I, st, a, kw, cx, node):
    if len(a) > 2 or kw:
        return I.err(st, "TypeError", "list expected at most 1 argument", node, cx)
    if len(a) == 1:
        if st.get(a[0]).pv:
            lput(I, st, a[0], (), cx, node)
        return [(st, None)]

    def f(st, items):
        lput(I, st, a[0], items, cx, node)
        return [(st, None)]
    return then(I.to_list(st, a[1], cx, node), f)


@method(list_, "append")
def _(I, st, a, kw, cx, node):
    lput(I, st, a[0], lpv(I, st, a[0]) + (a[1],), cx, node)
    return [(st, None)]


@method(list_, "extend")
def _(I, st, a, kw, cx, node):
    def f(st, items):
        lput(I, st, a[0], lpv(I, st, a[0]) + tuple(items), cx, node)
        return [(st, None)]
    return then(I.to_list(st, a[1], cx, node), f)


@method(list_, "__iadd__")
def _(I, st, a, kw, cx, node):
    def f(st, items):
        lput(I, st, a[0], lpv(I, st, a[0]) + tuple(items), cx, node)
        return [(st, a[0])]
    return then(I.to_list(st, a[1], cx, node), f)


@method(list_, "__imul__")
def _(I, st, a, kw, cx, node):
    lput(I, st, a[0], lpv(I, st, a[0]) * a[1], cx, node)
    return [(st, a[0])]


@method(list_, "insert")
def _(I, st, a, kw, cx, node):
    x = list(lpv(I, st, a[0]))
    x.insert(a[1], a[2])
    lput(I, st, a[0], x, cx, node)
    return [(st, None)]


@method(list_, "appendleft")
def _(I, st, a, kw, cx, node):
    lput(I, st, a[0], (a[1],) + lpv(I, st, a[0]), cx, node)
    return [(st, None)]


@method(list_, "popleft")
def _(I, st, a, kw, cx, node):
    x = lpv(I, st, a[0])
    if not x:
        return I.err(st, "IndexError", "pop from an empty deque", node, cx)
    lput(I, st, a[0], x[1:], cx, node)
    return [(st, x[0])]


@method(list_, "pop")
def _(I, st, a, kw, cx, node):
    x = list(lpv(I, st, a[0]))
    i = a[1] if len(a) > 1 else -1
    if not isinstance(i, int):
        raise Unsupported("pop index")
    if not x or not (-len(x) <= i < len(x)):
        return I.err(st, "IndexError", "pop from empty list" if not x else "pop index out of range", node, cx)
    v = x.pop(i)
    lput(I, st, a[0], x, cx, node)
    return [(st, v)]


def find_index(I, st, items, v, cx, node):
    """[(st, index or -1)]"""
    out, cur = [], [st]
    for i, x in enumerate(items):
        nxt = []
        for st in cur:
            if I.identical(st, x, v):
                out.append((st, i))
                continue
            for st, e in I.eq(st, x, v, cx, node):
                if isinstance(e, Abrupt):
                    out.append((st, e))
                    continue
                for st, t in I.truth(st, e, cx, node):
                    if t is True:
                        out.append((st, i))
                    elif t is False:
                        nxt.append(st)
                    else:
                        out.append((st, t))
        cur = nxt
    return out + [(st, -1) for st in cur]


@method(list_, "index")
def _(I, st, a, kw, cx, node):
    def f(st, i):
        return [(st, i)] if i >= 0 else I.err(st, "ValueError", "value is not in list", node, cx)
    return then(find_index(I, st, lpv(I, st, a[0]), a[1], cx, node), f)


@method(list_, "remove")
def _(I, st, a, kw, cx, node):
    def f(st, i):
        if i < 0:
            return I.err(st, "ValueError", "list.remove(x): x not in list", node, cx)
        x = list(lpv(I, st, a[0]))
        del x[i]
        lput(I, st, a[0], x, cx, node)
        return [(st, None)]
    return then(find_index(I, st, lpv(I, st, a[0]), a[1], cx, node), f)


@method(list_, "count")
def _(I, st, a, kw, cx, node):
    def one(st, x):
        if I.identical(st, x, a[1]):
            return [(st, 1)]
        return then(then(I.eq(st, x, a[1], cx, node), lambda st, e: I.truth(st, e, cx, node)), lambda st, t: [(st, int(t))])
    return then(thread(I, st, lpv(I, st, a[0]), one), lambda st, vs: [(st, sum(vs))])


@method(list_, "reverse")
def _(I, st, a, kw, cx, node):
    lput(I, st, a[0], tuple(reversed(lpv(I, st, a[0]))), cx, node)
    return [(st, None)]


@method(list_, "sort")
def _(I, st, a, kw, cx, node):
    def f(st, items):
        lput(I, st, a[0], items, cx, node)
        return [(st, None)]
    return then(sort_items(I, st, list(lpv(I, st, a[0])), kw, cx, node), f)


@method(list_, "clear")
def _(I, st, a, kw, cx, node):
    lput(I, st, a[0], (), cx, node)
    return [(st, None)]


@method(list_, "copy")
def _(I, st, a, kw, cx, node):
    return [(st, I.new_list(st, lpv(I, st, a[0])))]


def seq_method(name):
    def deco(f):
        list_.methods[name] = BFn("list." + name, f)
        tuple_.methods[name] = BFn("tuple." + name, f)
        return f
    return deco


for _c in (tuple_,):
    _c.methods["index"] = list_.methods["index"]
    _c.methods["count"] = list_.methods["count"]


@seq_method("__len__")
def _(I, st, a, kw, cx, node):
    return [(st, len(lpv(I, st, a[0])))]


@seq_method("__iter__")
def _(I, st, a, kw, cx, node):
    return [(st, st.new(IterO(tuple(lpv(I, st, a[0])))))]


@seq_method("__contains__")
def _(I, st, a, kw, cx, node):
    return I.in_items(st, a[1], lpv(I, st, a[0]), cx, node)


@seq_method("__getitem__")
def _(I, st, a, kw, cx, node):
    return seq_getitem(I, st, a[0], lpv(I, st, a[0]), a[1], cx, node)


@seq_method("__add__")
def _(I, st, a, kw, cx, node):
    x, y = a
    kx = "tuple" if isinstance(x, Tup) else st.get(x).pk
    oy = st.get(y) if isinstance(y, Ref) else None
    ky = "tuple" if isinstance(y, Tup) else (oy.pk if isinstance(oy, Obj) else None)
    if kx != ky:
        return [(st, NotImplemented)]
    items = tuple(lpv(I, st, x)) + tuple(lpv(I, st, y))
    return [(st, Tup(items) if kx == "tuple" else I.new_list(st, items))]


@seq_method("__mul__")
def _(I, st, a, kw, cx, node):
    x, n = a
    if not isinstance(n, int):
        if isinstance(n, Num):
            raise Unsupported("sequence repeated an unknown number of times")
        return [(st, NotImplemented)]
    items = tuple(lpv(I, st, x)) * n
    return [(st, Tup(items) if isinstance(x, Tup) else I.new_list(st, items))]


list_.methods["__rmul__"] = list_.methods["__mul__"]
tuple_.methods["__rmul__"] = tuple_.methods["__mul__"]


@seq_method("__eq__")
def _(I, st, a, kw, cx, node):
    x, y = a
    kx = "tuple" if isinstance(x, Tup) else st.get(x).pk
    oy = st.get(y) if isinstance(y, Ref) else None
    ky = "tuple" if isinstance(y, Tup) else (oy.pk if isinstance(oy, Obj) else None)
    if kx != ky:
        return [(st, NotImplemented)]
    return I.seq_eq(st, lpv(I, st, x), lpv(I, st, y), cx, node)


@seq_method("__reversed__")
def _(I, st, a, kw, cx, node):
    return [(st, st.new(IterO(tuple(reversed(lpv(I, st, a[0]))))))]


@method(list_, "__setitem__")
def _(I, st, a, kw, cx, node):
    return list_setitem(I, st, a[0], a[1], a[2], cx, node)


@method(list_, "__delitem__")
def _(I, st, a, kw, cx, node):
    return list_delitem(I, st, a[0], a[1], cx, node)


def to_slice(k):
    for x in (k.lo, k.hi, k.step):
        if x is not None and not isinstance(x, int):
            raise Unsupported("slice bounds")
    return slice(k.lo, k.hi, k.step)


def seq_getitem(I, st, o, items, k, cx, node):
    if isinstance(k, SliceV):
        r = items[to_slice(k)]
        return [(st, Tup(r) if isinstance(o, Tup) else I.new_list(st, r))]
    if isinstance(k, BoolV):
        return then(I.branch(st, k, cx, node), lambda st, t: seq_getitem(I, st, o, items, int(t), cx, node))
    if isinstance(k, int):
        if -len(items) <= k < len(items):
            return [(st, items[k])]
        return I.err(st, "IndexError", "%s index out of range" % ("tuple" if isinstance(o, Tup) else "list"), node, cx)
    if isinstance(k, Num) and k.ty == "int":
        out, cur = [], [st]
        for i in range(-len(items), len(items)):
            nxt = []
            for st in cur:
                for st, t in I.truth(st, sign_bool(psub(k.p, pconst(i)), EQ0), cx, node):
                    (out.append((st, items[i])) if t else nxt.append(st))
            cur = nxt
        for st in cur:
            out.extend(I.err(st, "IndexError", "list index out of range", node, cx))
        return out
    if isinstance(k, Ref) and isinstance(st.get(k), Obj):
        f = I.class_lookup(st, st.get(k).cls, "__index__")
        if f is not None:
            return then(I.call(st, I.bind(st, f, k, st.get(k).cls), [], {}, cx, node), lambda st, k: seq_getitem(I, st, o, items, k, cx, node))
    return I.err(st, "TypeError", "list indices must be integers or slices", node, cx)


def list_setitem(I, st, ref, k, v, cx, node):
    x = list(lpv(I, st, ref))
    if isinstance(k, SliceV):
        def f(st, items):
            y = list(lpv(I, st, ref))
            y[to_slice(k)] = items
            lput(I, st, ref, y, cx, node)
            return [(st, None)]
        return then(I.to_list(st, v, cx, node), f)
    if not isinstance(k, int):
        if isinstance(k, Num):
            raise Unsupported("store at an unknown index")
        return I.err(st, "TypeError", "list indices must be integers or slices", node, cx)
    if not (-len(x) <= k < len(x)):
        return I.err(st, "IndexError", "list assignment index out of range", node, cx)
    x[k] = v
    lput(I, st, ref, x, cx, node)
    return [(st, None)]


def list_delitem(I, st, ref, k, cx, node):
    x = list(lpv(I, st, ref))
    if isinstance(k, SliceV):
        del x[to_slice(k)]
    elif isinstance(k, int):
        if not (-len(x) <= k < len(x)):
            return I.err(st, "IndexError", "list assignment index out of range", node, cx)
        del x[k]
    else:
        raise Unsupported("list index")
    lput(I, st, ref, x, cx, node)
    return [(st, None)]


# ---------------------------------------------------------------------------- dict
@method(dict_, "__init__")
def _(I, st, a, kw, cx, node):
    if len(a) > 2:
        return I.err(st, "TypeError", "dict expected at most 1 argument", node, cx)
    cur = [(st, None)] if len(a) == 1 else dict_update(I, st, a[0], a[1], cx, node)
    for k, v in kw.items():
        nxt = []
        for st, o in cur:
            nxt.extend([(st, o)] if o is not None else dict_set(I, st, a[0], k, v, cx, node))
        cur = nxt
    return cur


@method(dict_, "get")
def _(I, st, a, kw, cx, node):
    d = a[2] if len(a) > 2 else kw.get("default")
    return then(key_lookup0(I, st, a[0], a[1], cx, node), lambda st, h: [(st, d if h is MISS else h[2])])


MISS = object()


def key_lookup0(I, st, ref, k, cx, node):
    return [(s, MISS if h is None else h) for s, h in key_lookup(I, st, pview(st, st.get(ref)), k, cx, node)]


@method(dict_, "setdefault")
def _(I, st, a, kw, cx, node):
    d = a[2] if len(a) > 2 else None

    def f(st, h):
        if h is not MISS:
            return [(st, h[2])]
        return [(st, d if o is None else o) for st, o in dict_set(I, st, a[0], a[1], d, cx, node)]
    return then(key_lookup0(I, st, a[0], a[1], cx, node), f)


@method(dict_, "pop")
def _(I, st, a, kw, cx, node):
    def f(st, h):
        if h is MISS:
            if len(a) > 2:
                return [(st, a[2])]
            return I.err(st, "KeyError", a[1], node, cx)
        pv = dict(pview(st, st.get(a[0])))
        del pv[h[0]]
        put(I, st, a[0], pv, cx, node)
        return [(st, h[2])]
    return then(key_lookup0(I, st, a[0], a[1], cx, node), f)


@method(dict_, "popitem")
def _(I, st, a, kw, cx, node):
    pv = dict(pview(st, st.get(a[0])))
    if not pv:
        return I.err(st, "KeyError", "popitem(): dictionary is empty", node, cx)
    k, e = pv.popitem()
    put(I, st, a[0], pv, cx, node)
    return [(st, Tup(e))]


@method(dict_, "update")
def _(I, st, a, kw, cx, node):
    cur = [(st, None)] if len(a) == 1 else dict_update(I, st, a[0], a[1], cx, node)
    for k, v in kw.items():
        nxt = []
        for st, o in cur:
            nxt.extend([(st, o)] if o is not None else dict_set(I, st, a[0], k, v, cx, node))
        cur = nxt
    return cur


@method(dict_, "clear")
def _(I, st, a, kw, cx, node):
    put(I, st, a[0], {}, cx, node)
    return [(st, None)]


@method(dict_, "copy")
def _(I, st, a, kw, cx, node):
    o = st.get(a[0])
    return [(st, st.new(Obj(dict_ if o.pk == "idict" else o.cls, pk="dict", pv=dict(pview(st, o)))))]


@method(dict_, "keys")
def _(I, st, a, kw, cx, node):
    return [(st, st.new(Obj(dict_keys_, pk="set", pv={h: (k, True) for h, (k, v) in pview(st, st.get(a[0])).items()})))]


@method(dict_, "values")
def _(I, st, a, kw, cx, node):
    return [(st, st.new(Obj(dict_view_, pk="tuple", pv=tuple(v for k, v in pview(st, st.get(a[0])).values()))))]


@method(dict_, "items")
def _(I, st, a, kw, cx, node):
    return [(st, st.new(Obj(dict_view_, pk="tuple", pv=tuple(Tup((k, v)) for k, v in pview(st, st.get(a[0])).values()))))]


@method(dict_, "__contains__")
def _(I, st, a, kw, cx, node):
    return then(key_lookup0(I, st, a[0], a[1], cx, node), lambda st, h: [(st, h is not MISS)])


@method(dict_, "__len__")
def _(I, st, a, kw, cx, node):
    return [(st, len(pview(st, st.get(a[0]))))]


@method(dict_, "__iter__")
def _(I, st, a, kw, cx, node):
    return [(st, st.new(IterO(tuple(k for k, v in pview(st, st.get(a[0])).values()))))]


@method(dict_, "__reversed__")
def _(I, st, a, kw, cx, node):
    return [(st, st.new(IterO(tuple(k for k, v in reversed(list(pview(st, st.get(a[0])).values()))))))]


@method(dict_, "__getitem__")
def _(I, st, a, kw, cx, node):
    return dict_getitem(I, st, a[0], a[1], cx, node)


@method(dict_, "__setitem__")
def _(I, st, a, kw, cx, node):
    return dict_set(I, st, a[0], a[1], a[2], cx, node)


@method(dict_, "__delitem__")
def _(I, st, a, kw, cx, node):
    return dict_delitem(I, st, a[0], a[1], cx, node)


@method(dict_, "__eq__")
def _(I, st, a, kw, cx, node):
    o = st.get(a[1]) if isinstance(a[1], Ref) else None
    if not is_dict(o):
        return [(st, NotImplemented)]
    x, y = pview(st, st.get(a[0])), pview(st, o)
    if len(x) != len(y):
        return [(st, False)]
    if any(symbolic(k) for k, _ in list(x.values()) + list(y.values())) and set(x) != set(y):
        raise Unsupported("comparison of dictionaries with unknown keys")
    if set(x) != set(y):
        return [(st, False)]
    return I.seq_eq(st, [v for k, v in x.values()], [y[h][1] for h in x], cx, node)


def _dor(I, st, a, kw, cx, node):
    o = st.get(a[1]) if isinstance(a[1], Ref) else None
    if not is_dict(o) or not is_dict(st.get(a[0]) if isinstance(a[0], Ref) else None):
        return [(st, NotImplemented)]
    n = st.new(Obj(dict_, pk="dict", pv=dict(pview(st, st.get(a[0])))))
    return [(st, n if r is None else r) for st, r in dict_update(I, st, n, a[1], cx, node)]


dict_.methods["__or__"] = BFn("dict.__or__", _dor)


@method(dict_, "__ior__")
def _(I, st, a, kw, cx, node):
    return [(st, a[0] if r is None else r) for st, r in dict_update(I, st, a[0], a[1], cx, node)]


@method(OrderedDict_, "move_to_end")
def _(I, st, a, kw, cx, node):
    def f(st, h):
        if h is MISS:
            return I.err(st, "KeyError", a[1], node, cx)
        pv = dict(pview(st, st.get(a[0])))
        e = pv.pop(h[0])
        last = arg(a, kw, 2, "last", True)
        pv = {**pv, h[0]: e} if last else {h[0]: e, **pv}
        put(I, st, a[0], pv, cx, node)
        return [(st, None)]
    return then(key_lookup0(I, st, a[0], a[1], cx, node), f)


@method(defaultdict_, "__init__")
def _(I, st, a, kw, cx, node):
    st.mut(a[0]).attrs["default_factory"] = a[1] if len(a) > 1 else None
    return dict_.methods["__init__"].fn(I, st, [a[0]] + a[2:], kw, cx, node)


@method(Counter_, "__init__")
def _(I, st, a, kw, cx, node):
    if len(a) > 1:
        o = st.get(a[1]) if isinstance(a[1], Ref) else None
        if isinstance(o, Obj) and o.pk in ("dict", "idict"):
            return dict_.methods["__init__"].fn(I, st, a, kw, cx, node)

        def f(st, items):
            cur = [(st, None)]
            for k in items:
                nxt = []
                for st, o in cur:
                    if o is not None:
                        nxt.append((st, o))
                        continue
                    for st, n in dict_getitem(I, st, a[0], k, cx, node):
                        nxt.extend([(st, n)] if isinstance(n, Abrupt) else dict_set(I, st, a[0], k, n + 1, cx, node))
                cur = nxt
            return cur
        return then(I.to_list(st, a[1], cx, node), f)
    return [(st, None)]


@method(Counter_, "most_common")
def _(I, st, a, kw, cx, node):
    items = [kv for kv in pview(st, st.get(a[0])).values()]
    if not all(isinstance(v, int) for _, v in items):
        raise Unsupported("Counter.most_common")
    items.sort(key=lambda kv: -kv[1])
    n = arg(a, kw, 1, "n", None)
    return [(st, I.new_list(st, tuple(Tup(kv) for kv in (items if n is None else items[:n]))))]


def _fromkeys(I, st, a, kw, cx, node):
    d = a[2] if len(a) > 2 else None

    def f(st, items):
        ref = st.new(Obj(dict_, pk="dict", pv={}))
        cur = [(st, None)]
        for k in items:
            nxt = []
            for st, o in cur:
                nxt.extend([(st, o)] if o is not None else dict_set(I, st, ref, k, d, cx, node))
            cur = nxt
        return [(st, ref if o is None else o) for st, o in cur]
    return then(I.to_list(st, a[1], cx, node), f)


dict_.methods["fromkeys"] = CM(BFn("dict.fromkeys", _fromkeys))


def dict_getitem(I, st, ref, k, cx, node):
    def f(st, h):
        if h is not MISS:
            return [(st, h[2])]
        o = st.get(ref)
        m = I.class_lookup(st, o.cls, "__missing__")
        if m is not None:
            return I.call(st, I.bind(st, m, ref, o.cls), [k], {}, cx, node)
        fac = o.attrs.get("default_factory")
        if fac is not None:
            def g(st, v):
                return [(st, v if r is None else r) for st, r in dict_set(I, st, ref, k, v, cx, node)]
            return then(I.call(st, fac, [], {}, cx, node), g)
        if o.cls is Counter_:
            return [(st, 0)]
        return I.err(st, "KeyError", k, node, cx)
    return then(key_lookup0(I, st, ref, k, cx, node), f)


def dict_delitem(I, st, ref, k, cx, node):
    def f(st, h):
        if h is MISS:
            return I.err(st, "KeyError", k, node, cx)
        pv = dict(pview(st, st.get(ref)))
        del pv[h[0]]
        put(I, st, ref, pv, cx, node)
        return [(st, None)]
    return then(key_lookup0(I, st, ref, k, cx, node), f)


# ---------------------------------------------------------------------------- set
def as_items(I, st, v, cx, node):
    return I.to_list(st, v, cx, node)


@method(set_, "__init__")
def _(I, st, a, kw, cx, node):
    if len(a) == 1:
        return [(st, None)]

    def f(st, items):
        cur = [(st, None)]
        for x in items:
            nxt = []
            for st, o in cur:
                nxt.extend([(st, o)] if o is not None else set_add(I, st, a[0], x, cx, node))
            cur = nxt
        return cur
    return then(I.to_list(st, a[1], cx, node), f)


@method(set_, "add")
def _(I, st, a, kw, cx, node):
    return set_add(I, st, a[0], a[1], cx, node)


def set_remove(raising):
    def g(I, st, a, kw, cx, node):
        def f(st, h):
            if h is MISS:
                return I.err(st, "KeyError", a[1], node, cx) if raising else [(st, None)]
            pv = dict(st.get(a[0]).pv)
            del pv[h[0]]
            put(I, st, a[0], pv, cx, node)
            return [(st, None)]
        return then(key_lookup0(I, st, a[0], a[1], cx, node), f)
    return g


set_.methods["remove"] = BFn("set.remove", set_remove(True))
set_.methods["discard"] = BFn("set.discard", set_remove(False))


@method(set_, "pop")
def _(I, st, a, kw, cx, node):
    pv = dict(st.get(a[0]).pv)
    if not pv:
        return I.err(st, "KeyError", "pop from an empty set", node, cx)
    if len(pv) > 1:
        raise Unsupported("set.pop of an arbitrary element")
    k, e = pv.popitem()
    put(I, st, a[0], pv, cx, node)
    return [(st, e[0])]


@method(set_, "clear")
def _(I, st, a, kw, cx, node):
    put(I, st, a[0], {}, cx, node)
    return [(st, None)]


def set_copy(I, st, a, kw, cx, node):
    o = st.get(a[0])
    return [(st, st.new(Obj(o.cls if isinstance(o.cls, BCls) and o.cls is not dict_keys_ else set_, pk="set", pv=dict(o.pv))))]


@method(set_, "update")
def _(I, st, a, kw, cx, node):
    cur = [(st, None)]
    for other in a[1:]:
        nxt = []
        for st, o in cur:
            if o is not None:
                nxt.append((st, o))
                continue
            for st, items in I.to_list(st, other, cx, node):
                if isinstance(items, Abrupt):
                    nxt.append((st, items))
                    continue
                c2 = [(st, None)]
                for x in items:
                    c3 = []
                    for st, o in c2:
                        c3.extend([(st, o)] if o is not None else set_add(I, st, a[0], x, cx, node))
                    c2 = c3
                nxt.extend(c2)
        cur = nxt
    return cur


def set_binop(kind, operator):
    def g(I, st, a, kw, cx, node):
        if operator:
            o = st.get(a[1]) if isinstance(a[1], Ref) else None
            if not (isinstance(o, Obj) and o.pk == "set"):
                return [(st, NotImplemented)]
        others = a[1:]
        cur = [(st, dict(st.get(a[0]).pv))]
        cls = st.get(a[0]).cls
        cls = cls if cls in (set_, frozenset_) else set_
        for other in others:
            nxt = []
            for st, pv in cur:
                if isinstance(pv, Abrupt):
                    nxt.append((st, pv))
                    continue
                for st, items in I.to_list(st, other, cx, node):
                    if isinstance(items, Abrupt):
                        nxt.append((st, items))
                        continue
                    if any(symbolic(x) for x in items) or any(symbolic(k) for k, _ in pv.values()):
                        raise Unsupported("set operation on unknown elements")
                    if any(hashable(I, st, x) is not True for x in items):
                        nxt.extend(I.err(st, "TypeError", "unhashable type", node, cx))
                        continue
                    ks = {hkey(x): (x, True) for x in items}
                    if kind == "or":
                        r = {**pv, **{k: v for k, v in ks.items() if k not in pv}}
                    elif kind == "and":
                        r = {k: v for k, v in pv.items() if k in ks}
                    elif kind == "sub":
                        r = {k: v for k, v in pv.items() if k not in ks}
                    else:
                        r = {**{k: v for k, v in pv.items() if k not in ks}, **{k: v for k, v in ks.items() if k not in pv}}
                    nxt.append((st, r))
            cur = nxt
        return [(st, pv if isinstance(pv, Abrupt) else st.new(Obj(cls, pk="set", pv=pv))) for st, pv in cur]
    return g


def set_cmp(kind):
    def g(I, st, a, kw, cx, node):
        def f(st, items):
            x = set(st.get(a[0]).pv)
            y = set(hkey(i) for i in items)
            return [(st, x <= y if kind == "sub" else x >= y if kind == "super" else not (x & y))]
        return then(I.to_list(st, a[1], cx, node), f)
    return g


def set_iop(kind):
    b = set_binop(kind, False)

    def g(I, st, a, kw, cx, node):
        def f(st, r):
            put(I, st, a[0], dict(st.get(r).pv), cx, node)
            return [(st, a[0])]
        return then(b(I, st, a, kw, cx, node), f)
    return g


def set_eq(I, st, a, kw, cx, node):
    o = st.get(a[1]) if isinstance(a[1], Ref) else None
    if not (isinstance(o, Obj) and o.pk == "set"):
        return [(st, NotImplemented)]
    x, y = st.get(a[0]).pv, o.pv
    if set(x) != set(y) and (any(symbolic(k) for k, _ in x.values()) or any(symbolic(k) for k, _ in y.values())):
        raise Unsupported("comparison of sets of unknown elements")
    return [(st, set(x) == set(y))]


for _c in (set_, frozenset_, dict_keys_):
    for _nm, _kd in (("union", "or"), ("intersection", "and"), ("difference", "sub"), ("symmetric_difference", "xor")):
        _c.methods[_nm] = BFn("set." + _nm, set_binop(_kd, False))
    for _nm, _kd in (("__or__", "or"), ("__and__", "and"), ("__sub__", "sub"), ("__xor__", "xor")):
        _c.methods[_nm] = BFn("set." + _nm, set_binop(_kd, _c is not dict_keys_))
    for _nm, _kd in (("issubset", "sub"), ("issuperset", "super"), ("isdisjoint", "dis")):
        _c.methods[_nm] = BFn("set." + _nm, set_cmp(_kd))
    _c.methods["copy"] = BFn("set.copy", set_copy)
    _c.methods["__eq__"] = BFn("set.__eq__", set_eq)
    _c.methods["__contains__"] = dict_.methods["__contains__"]
    _c.methods["__len__"] = dict_.methods["__len__"]
    _c.methods["__iter__"] = BFn("set.__iter__", lambda I, st, a, kw, cx, node: [(st, st.new(IterO(tuple(I.seq_items(st, a[0])))))])
for _nm, _kd in (("__ior__", "or"), ("__iand__", "and"), ("__isub__", "sub"), ("__ixor__", "xor")):
    set_.methods[_nm] = BFn("set." + _nm, set_iop(_kd))
set_.methods["difference_update"] = BFn("set.difference_update", lambda I, st, a, kw, cx, node: [(s, r if isinstance(r, Abrupt) else None) for s, r in set_iop("sub")(I, st, a, kw, cx, node)])
set_.methods["intersection_update"] = BFn("set.intersection_update", lambda I, st, a, kw, cx, node: [(s, r if isinstance(r, Abrupt) else None) for s, r in set_iop("and")(I, st, a, kw, cx, node)])
dict_view_.methods["__len__"] = tuple_.methods["__len__"]
dict_view_.methods["__iter__"] = tuple_.methods["__iter__"]
dict_view_.methods["__contains__"] = tuple_.methods["__contains__"]


# ---------------------------------------------------------------------------- object / type / exceptions
def _obj_init(I, st, a, kw, cx, node):
    if (len(a) > 1 or kw) and isinstance(a[0], Ref) and isinstance(st.get(a[0]), Obj):
        c = st.get(a[0]).cls
        n = I.class_lookup(st, c, "__new__")
        if isinstance(n, SM):
            n = n.f
        if isinstance(n, BFn) and st.get(a[0]).pk is None:
            return I.err(st, "TypeError", "object.__init__() takes exactly one argument", node, cx)
    return [(st, None)]


object_.methods["__init__"] = BFn("object.__init__", _obj_init)
object_.methods["__new__"] = SM(BFn("object.__new__", lambda I, st, a, kw, cx, node: alloc(I, st, a[0], a[1:], kw, cx, node)))
for _c in (tuple_, str_, int_, float_, frozenset_):
    _c.methods["__new__"] = SM(BFn(_c.name + ".__new__", lambda I, st, a, kw, cx, node: alloc(I, st, a[0], a[1:], kw, cx, node)))
object_.methods["__setattr__"] = BFn("object.__setattr__", lambda I, st, a, kw, cx, node: I.inst_setattr(st, a[0], a[1], a[2], cx, node))
object_.methods["__getattribute__"] = BFn("object.__getattribute__", lambda I, st, a, kw, cx, node: I.inst_getattr(st, a[0], st.get(a[0]), a[1], cx, node, True))
object_.methods["__delattr__"] = BFn("object.__delattr__", lambda I, st, a, kw, cx, node: I.inst_delattr(st, a[0], a[1], cx, node))
object_.methods["__eq__"] = BFn("object.__eq__", lambda I, st, a, kw, cx, node: [(st, True if I.identical(st, a[0], a[1]) else NotImplemented)])
object_.methods["__ne__"] = BFn("object.__ne__", lambda I, st, a, kw, cx, node: I.ne(st, a[0], a[1], cx, node))
object_.methods["__hash__"] = BFn("object.__hash__", lambda I, st, a, kw, cx, node: [(st, hash_of(I, st, a[0]))])
object_.methods["__repr__"] = BFn("object.__repr__", lambda I, st, a, kw, cx, node: raw_repr(I, st, a[0], cx, node) if isinstance(a[0], Ref) and isinstance(st.get(a[0]), Obj) else repr_(I, st, a[0], cx, node))
object_.methods["__str__"] = BFn("object.__str__", lambda I, st, a, kw, cx, node: str_of(I, st, a[0], cx, node))
object_.methods["__format__"] = BFn("object.__format__", lambda I, st, a, kw, cx, node: format_(I, st, a[0], a[1], cx, node))
object_.methods["__init_subclass__"] = BFn("object.__init_subclass__", lambda I, st, a, kw, cx, node: [(st, None)])
object_.methods["__reduce__"] = BFn("object.__reduce__", lambda I, st, a, kw, cx, node: I.unsupported(st, "__reduce__", node, cx))


def hash_of(I, st, v):
    raise Unsupported("value of hash()")


def _exc_init(I, st, a, kw, cx, node):
    I_o = st.mut(a[0])
    I_o.attrs["args"] = Tup(a[1:])
    return [(st, None)]


EXC["BaseException"].methods["__init__"] = BFn("BaseException.__init__", _exc_init)
EXC["BaseException"].methods["with_traceback"] = BFn("with_traceback", lambda I, st, a, kw, cx, node: [(st, a[0])])
EXC["BaseException"].methods["add_note"] = BFn("add_note", lambda I, st, a, kw, cx, node: [(st, None)])
for _nm in ("__cause__", "__context__", "__traceback__"):
    EXC["BaseException"].methods[_nm] = None


def alloc(I, st, cls, args, kw, cx, node):
    """object.__new__(cls)"""
    for c in I.mro_of(st, cls):
        if not isinstance(c, BCls):
            continue
        if c in (list_, deque_):
            return [(st, st.new(Obj(cls, pk="list", pv=())))]
        if c in (dict_, OrderedDict_, defaultdict_, Counter_):
            return [(st, st.new(Obj(cls, pk="dict", pv={})))]
        if c is set_:
            return [(st, st.new(Obj(cls, pk="set", pv={})))]
        if c is frozenset_:
            return then(make_set_from(I, st, args, cx, node, cls), lambda st, r: [(st, r)])
        if c is tuple_:
            if not args:
                return [(st, st.new(Obj(cls, pk="tuple", pv=())))]
            return [(s, i if isinstance(i, Abrupt) else s.new(Obj(cls, pk="tuple", pv=tuple(i)))) for s, i in I.to_list(st, args[0], cx, node)]
        if c is str_:
            if not args:
                return [(st, st.new(Obj(cls, pk="str", pv="")))]
            return [(s, i if isinstance(i, Abrupt) else s.new(Obj(cls, pk="str", pv=i))) for s, i in str_of(I, st, args[0], cx, node)]
        if c in (int_, float_, bool_):
            raise Unsupported("subclass of " + c.name)
        if c is EXC["BaseException"]:
            return [(st, st.new(Obj(cls, {"args": Tup(args)})))]
        if c is type_:
            return new_type(I, st, [cls] + list(args), kw, cx, node)
    return [(st, st.new(Obj(cls)))]


def make_set_from(I, st, args, cx, node, cls):
    if not args:
        return [(st, st.new(Obj(cls, pk="set", pv={})))]
    return then(I.to_list(st, args[0], cx, node), lambda st, items: make_set(I, st, items, cx, node, cls))


# ---------------------------------------------------------------------------- numbers from values
FLOATCH = frozenset("0123456789.eE+-_ \t\n\r\x0b\x0cinfatyINFATY")


def to_float(I, st, v, cx, node):
    if isinstance(v, (int, float)):
        return nat(I, st, lambda: float(v), node, cx)
    if isinstance(v, Num):
        return [(st, Num(v.p, "float") if v.p.const() is None else I.mknum(v.p, "float"))]
    if isinstance(v, BoolV):
        return then(I.branch(st, v, cx, node), lambda st, t: [(st, float(t))])
    if isinstance(v, str):
        return nat(I, st, lambda: float(v), node, cx)
    if isinstance(v, Str):
        return parse_number(I, st, v, "float", 10, cx, node)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Obj):
            if o.pk == "str":
                return to_float(I, st, o.pv, cx, node)
            for m in ("__float__", "__index__"):
                f = I.class_lookup(st, o.cls, m)
                if f is not None:
                    return then(I.call(st, I.bind(st, f, v, o.cls), [], {}, cx, node), lambda st, r: to_float(I, st, r, cx, node))
    return I.err(st, "TypeError", "float() argument must be a string or a real number", node, cx)


def to_int(I, st, v, base, cx, node):
    if base is not None:
        if isinstance(v, (str, bytes)):
            return nat(I, st, lambda: int(v, base), node, cx)
        if isinstance(v, Str):
            return parse_number(I, st, v, "int", base, cx, node)
        return I.err(st, "TypeError", "int() can't convert non-string with explicit base", node, cx)
    if isinstance(v, (int, float, str, bytes)):
        return nat(I, st, lambda: int(v), node, cx)
    if isinstance(v, Num):
        return [(st, I.mknum(I.trunc(st, v.p), "int"))]
    if isinstance(v, BoolV):
        return then(I.branch(st, v, cx, node), lambda st, t: [(st, int(t))])
    if isinstance(v, Str):
        return parse_number(I, st, v, "int", 10, cx, node)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Obj):
            if o.pk == "str":
                return to_int(I, st, o.pv, None, cx, node)
            for m in ("__int__", "__index__", "__trunc__"):
                f = I.class_lookup(st, o.cls, m)
                if f is not None:
                    return I.call(st, I.bind(st, f, v, o.cls), [], {}, cx, node)
    return I.err(st, "TypeError", "int() argument must be a string, a bytes-like object or a real number", node, cx)


def tokval(t):
    """poly for the value of a numeric token"""
    return t.atom if isinstance(t.atom, N.Poly) else patom(t.atom)


DIGITCH = frozenset("0123456789.eE+-_ \t\n\r\x0b\x0c")
NONFINITE = [sign + "".join(x) for sign in ("", "+", "-") for w in ("inf", "nan", "infinity") for x in itertools.product(*[(c, c.upper()) for c in w])]


def string_digits(base):
    return "0123456789" if base == 10 else "0123456789abcdefABCDEF" if base == 16 else _string.digits + _string.ascii_letters


def parse_number(I, st, s, want, base, cx, node):
    bad = lambda st: I.err(st, "ValueError", S.mk(["invalid literal for %s(): " % want, s]), node, cx)
    ps = list(s.parts)
    # surrounding blanks
    if isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
    if isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
    ps = [p for p in ps if p != ""]
    toks = [p for p in ps if isinstance(p, Tok)]
    lits = "".join(p for p in ps if isinstance(p, str))
    numeric = [t for t in toks if t.kind in ("int", "float", "num") and t.atom is not None]
    hexes = [t for t in toks if t.kind == "hex"]
    allowed = FLOATCH if want == "float" else (frozenset("0123456789+-_ \t\n\r\x0b\x0c") if base == 10 else frozenset("0123456789abcdefABCDEFxXoObB+-_ \t\n\r\x0b\x0c"))
    if any(c not in allowed for c in lits):
        return bad(st)
    if any(t.lo >= 1 and t.chars is not None and not (t.chars & allowed) for t in toks):
        return bad(st)
    if want == "int" and ps and isinstance(ps[-1], Tok) and ps[-1].lo >= 1 and ps[-1].chars is not None and all(ord(c) < 128 for c in ps[-1].chars):
        # it ends in a digit, or a blank
        if not ps[-1].chars & frozenset((string_digits(base)) + S.WS):
            return bad(st)
    if want == "int" and ps and isinstance(ps[0], Tok) and ps[0].lo >= 1 and ps[0].chars is not None and all(ord(c) < 128 for c in ps[0].chars):
        if not ps[0].chars & frozenset((string_digits(base)) + "+-" + S.WS):
            return bad(st)
    if base == 16 and hexes and len(hexes) == len(toks) and all(c in "0123456789abcdefABCDEF" for c in lits):
        r = N.PZERO
        for x in S.expand(S.mk(ps)):
            r = padd(pscale(r, Fraction(16)), tokval(x) if isinstance(x, Tok) else pconst(int(x, 16)))
        return [(st, I.mknum(r, "int"))]
    if numeric and base == 10:
        if len(ps) == 1:
            t = numeric[0]
            if want == "float":
                return [(st, I.mknum(tokval(t), "float") if tokval(t).const() is not None else Num(tokval(t), "float"))]
            if t.kind == "int":
                return [(st, I.mknum(tokval(t), "int"))]
            if t.kind == "float":
                return bad(st)       # contains a point
            raise Unsupported("int() of a number literal of unknown form")
        # there is a digit: it is neither inf nor nan
        if any(c not in "0123456789.eE+-_ " for c in lits) or any(t.lo >= 1 and t.chars is not None and not (t.chars & DIGITCH) for t in toks):
            return bad(st)
        if len(numeric) == len(toks) == 1 and len(ps) == 2 and ps[0] in ("+", "-") and isinstance(ps[1], Tok):
            t = numeric[0]
            # '-' followed by a literal that is itself signed is no number
            def sgn(st, neg):
                if neg:
                    return bad(st)
                if want == "int" and t.kind != "int":
                    return bad(st) if t.kind == "float" else I.unsupported(st, "int literal", node, cx)
                p = tokval(t) if ps[0] == "+" else pneg(tokval(t))
                return [(st, I.mknum(p, "float" if want == "float" else "int"))]
            return then(I.truth(st, sign_bool(tokval(t), LT0), cx, node), sgn)
        if len(numeric) == 1 and len(toks) == 1 and len(ps) == 2 and isinstance(ps[1], str) and ps[1] == ".0" and numeric[0].kind == "int" and want == "float":
            return [(st, Num(tokval(numeric[0]), "float"))]
        if len(toks) == 2 and len(numeric) == 2 and lits == "":
            raise Unsupported("adjacent number literals")
        raise Unsupported("number literal")
    if not toks:
        x = "".join(ps)
        return nat(I, st, lambda: float(x) if want == "float" else int(x, base), node, cx)
    if base == 10 and all(t.chars is not None for t in toks):
        # a number has a digit, or is inf or nan
        chars = frozenset(lits).union(*[t.chars for t in toks])
        if all(ord(c) < 128 for c in chars) and not chars & S.DIGITS and (want == "int" or not chars & frozenset("nN") or (
                not chars & frozenset(S.WS) and not any(S.may_equal(S.mk(ps), x) for x in NONFINITE))):
            return bad(st)
    key = ("str", "isfloat", s) if want == "float" else ("str", "isint", s, base)

    def f(st, t):
        if not t:
            return bad(st)
        ty = "real" if want == "float" else "int"
        return [(st, Num(patom(atom("parse" + want, (s, base), ty)), "float" if want == "float" else "int"))]
    # the literals that aren't finite are a case of their own
    out = []
    if want == "float":
        for word in ("inf", "-inf", "nan"):
            if any(S.may_equal(S.mk(ps), x) for x in NONFINITE if repr(float(x)) == word):
                nxt = []
                for st, t in I.branch(st, BoolV("p", ("str", "is" + word, s), True), cx, node):
                    if t is False:
                        nxt.append(st)
                    else:
                        out.append((st, t if isinstance(t, Abrupt) else float(word)))
                if not nxt:
                    return out
                st = nxt[0]
        if base == 10 and all(t.chars is not None and all(ord(c) < 128 for c in t.chars) and not t.chars & S.DIGITS for t in toks) and not frozenset(lits) & S.DIGITS:
            return out + bad(st)
    return out + then(I.branch(st, BoolV("p", key, True), cx, node), f)


def round_poly(I, st, p):
    if integral(p):
        return p
    c = p.const()
    if c is not None:
        return pconst(round(c))
    if p.t[-1][1] < 0:
        return pneg(patom(atom("round", "", "int", (pneg(p),))))
    return patom(atom("round", "", "int", (p,)))


# ---------------------------------------------------------------------------- isinstance & co
def class_has(I, st, v, name):
    c = I.type_of(st, v)
    m = I.class_lookup(st, c, name)
    return m is not None


def isinstance_(I, st, v, cls, cx, node):
    if isinstance(cls, Tup):
        if isinstance(v, Num) and v.ty in ("real", "num"):
            names = {c.name for c in flat_types(cls) if isinstance(c, BCls)}
            if {"int", "float"} <= names or names & {"Number", "Real"}:
                return [(st, True)]
        out, cur = [], [st]
        for c in cls.items:
            nxt = []
            for st in cur:
                for st, r in isinstance_(I, st, v, c, cx, node):
                    if isinstance(r, Abrupt):
                        out.append((st, r))
                        continue
                    for st, t in I.truth(st, r, cx, node):
                        if t is True:
                            out.append((st, True))
                        elif t is False:
                            nxt.append(st)
                        else:
                            out.append((st, t))
            cur = nxt
        return out + [(st, False) for st in cur]
    if cls is None:
        cls = NoneType_
    if not isinstance(cls, BCls) and not (isinstance(cls, Ref) and isinstance(st.get(cls), ClsO)):
        o = st.get(cls) if isinstance(cls, Ref) else None
        if isinstance(o, Obj) and o.pk == "tuple":
            return isinstance_(I, st, v, Tup(o.pv), cx, node)
        return I.err(st, "TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union", node, cx)
    if isinstance(cls, BCls):
        n = cls.name
        if cls in ABCS.values():
            return [(st, abc_check(I, st, v, n))]
        if cls in NUMABC.values():
            if isinstance(v, (bool, int, BoolV)):
                return [(st, True)]
            if isinstance(v, Num):
                if n in ("Number", "Complex", "Real"):
                    return [(st, True)]
                return isinstance_(I, st, v, int_, cx, node)
            return [(st, isinstance(v, float) and n in ("Number", "Complex", "Real"))]
        if isinstance(v, Num) and n in ("int", "float"):
            if v.ty == "int":
                return [(st, n == "int")]
            if v.ty == "float":
                return [(st, n == "float")]
            if v.ty == "num":
                b = sign_bool(psub(v.p, I.floor(st, v.p)), EQ0)
                if isinstance(b, bool):
                    return [(st, b == (n == "int"))]
                return [(st, b if n == "int" else b.neg())]
            raise Unsupported("int or float?")
    t = I.type_of(st, v)
    if t is None:
        raise Unsupported("type of value")
    if cls in I.mro_of(st, t):
        return [(st, True)]
    if isinstance(cls, Ref):
        f = None
        for k in st.get(cls).mro:
            f = I.cls_ns(st, k).get("__instancecheck__")
            if f is not None:
                raise Unsupported("__instancecheck__")
    return [(st, False)]


def flat_types(t):
    out = []
    for c in t.items:
        if isinstance(c, Tup):
            out.extend(flat_types(c))
        else:
            out.append(c)
    return out


def abc_check(I, st, v, n):
    t = I.type_of(st, v)
    mro = I.mro_of(st, t)
    if ABCS[n] in mro:
        return True
    seqs = (list_, tuple_, str_, range_, bytes_)
    maps = (dict_, mappingproxy_)
    sets = (set_, frozenset_, dict_keys_)
    if n == "Sequence" or n == "Reversible":
        return any(c in mro for c in seqs) or (n == "Reversible" and any(c in mro for c in maps))
    if n == "MutableSequence":
        return list_ in mro
    if n == "Mapping":
        return any(c in mro for c in maps)
    if n == "MutableMapping":
        return dict_ in mro
    if n == "Set":
        return any(c in mro for c in sets)
    if n == "MutableSet":
        return set_ in mro
    if n == "Callable":
        return callable_(I, st, v)
    if n == "Hashable":
        h = hashable(I, st, v)
        return h is not False
    if n in ("Iterator", "Generator"):
        return t in (generator_, iterator_) or class_has(I, st, v, "__next__")
    if n == "Sized":
        return any(c in mro for c in seqs + maps + sets) or class_has(I, st, v, "__len__")
    if n == "Container":
        return any(c in mro for c in seqs + maps + sets) or class_has(I, st, v, "__contains__")
    if n == "Iterable":
        return any(c in mro for c in seqs + maps + sets + (generator_, iterator_, dict_view_)) or class_has(I, st, v, "__iter__")
    if n == "Collection":
        return any(c in mro for c in seqs + maps + sets) or all(class_has(I, st, v, m) for m in ("__len__", "__iter__", "__contains__"))
    raise Unsupported("abc " + n)


def callable_(I, st, v):
    if isinstance(v, (BFn, BM, BCls)):
        return True
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, (FnO, ClsO)):
            return True
        if isinstance(o, Obj):
            return I.class_lookup(st, o.cls, "__call__") is not None
    return False


# ---------------------------------------------------------------------------- items
def getitem(I, st, o, k, cx, node):
    if isinstance(o, Tup):
        return seq_getitem(I, st, o, o.items, k, cx, node)
    if isinstance(o, (str, Str)):
        return str_getitem(I, st, o, k, cx, node)
    if isinstance(o, (range, bytes)):
        if isinstance(k, SliceV):
            return nat(I, st, lambda: tuple(o[to_slice(k)]), node, cx)
        if isinstance(k, int):
            return nat(I, st, lambda: o[k], node, cx)
        raise Unsupported("index")
    if isinstance(o, BCls):
        if o in (list_, dict_, tuple_, set_, frozenset_, type_) or o in ABCS.values() or o.module == "typing":
            return [(st, o)]
        f = o.methods.get("__class_getitem__")
        return [(st, o)] if f else I.err(st, "TypeError", "type is not subscriptable", node, cx)
    if isinstance(o, Ref):
        h = st.get(o)
        if isinstance(h, Obj):
            f = I.class_lookup(st, h.cls, "__getitem__")
            if f is not None and not isinstance(f, BFn):
                return I.call(st, I.bind(st, f, o, h.cls), [k], {}, cx, node)
            if h.pk in ("list", "tuple"):
                if h.cls is dict_view_:
                    return I.err(st, "TypeError", "'dict_items' object is not subscriptable", node, cx)
                return seq_getitem(I, st, o, h.pv, k, cx, node)
            if h.pk in ("dict", "idict"):
                return dict_getitem(I, st, o, k, cx, node)
            if h.pk == "str":
                return str_getitem(I, st, h.pv, k, cx, node)
            if f is not None:
                return I.call(st, I.bind(st, f, o, h.cls), [k], {}, cx, node)
        if isinstance(h, ClsO):
            f = I.class_lookup(st, h.meta, "__getitem__") if h.meta is not None else None
            if f is not None:
                return I.call(st, BM(f, o), [k], {}, cx, node)
            f = I.class_lookup(st, o, "__class_getitem__")
            if f is not None:
                return I.call(st, f.f if isinstance(f, CM) else f, [o, k], {}, cx, node)
    return I.err(st, "TypeError", "'%s' object is not subscriptable" % I.tname(st, o), node, cx)


def cut_of(I, st, s, x, cx, node):
    """the position in a template that a symbolic bound denotes, if it is a boundary of its parts plus a constant"""
    es = S.expand(s)
    for i in range(len(es) + 1):
        n = len_(I, st, S.mk(es[:i]), cx, node)[0][1]
        c = psub(x.p, n.p if isinstance(n, Num) else pconst(n)).const()
        if c is not None and c == int(c):
            return S.Cut(i, int(c))
    raise Unsupported("slice bounds")


def str_getitem(I, st, s, k, cx, node):
    if isinstance(k, SliceV):
        if isinstance(s, Str) and (isinstance(k.lo, Num) or isinstance(k.hi, Num)) and k.step in (None, 1):
            lo, hi = (cut_of(I, st, s, x, cx, node) if isinstance(x, Num) else x for x in (k.lo, k.hi))
            r = S.slice_(s, lo, hi)
            if r is None:
                # the end of a text that is known to have this suffix
                if isinstance(hi, S.Cut) and not isinstance(lo, S.Cut):
                    rest = S.fixed_len(S.mk(S.expand(s)[hi.i:]))
                    off = hi.off - rest if rest is not None else 0
                    if off < 0 and (S.min_len(s) >= -off or any(
                            v and q[:2] == ("str", "endswith") and q[2] == s and len(q[3]) >= -off for q, v in st.preds.items() if isinstance(q, tuple))):
                        return [(st, derive(("slice", lo, off), s))]
                raise Unsupported("slice bounds")
            return [(st, r)]
        for x in (k.lo, k.hi, k.step):
            if x is not None and not isinstance(x, int):
                raise Unsupported("slice bounds")
        if isinstance(s, str):
            return nat(I, st, lambda: s[to_slice(k)], node, cx)
        if k.step not in (None, 1):
            raise Unsupported("slice step")
        r = S.slice_(s, k.lo, k.hi)
        if r is None:
            return [(st, derive(("slice", k.lo, k.hi), s))]
        return [(st, r)]
    if isinstance(k, int):
        if isinstance(s, str):
            return nat(I, st, lambda: s[k], node, cx)
        if S.min_len(s) > (k if k >= 0 else -k - 1):
            r = S.slice_(s, k, k + 1 if k != -1 else None)
            if r is not None:
                return [(st, r)]
        fl = S.fixed_len(s)
        if fl is not None and not (-fl <= k < fl):
            return I.err(st, "IndexError", "string index out of range", node, cx)
        n = len_(I, st, s, cx, node)[0][1]

        def f(st, inside):
            if not inside:
                return I.err(st, "IndexError", "string index out of range", node, cx)
            r = S.slice_(s, k, k + 1 if k != -1 else None)
            if r is None:
                r = derive(("slice", k, k + 1 if k != -1 else None), s, None, 1, 1)
            return [(st, r)]
        return then(I.truth(st, sign_bool(psub(n.p, pconst(k if k >= 0 else -k - 1)), GT0), cx, node), f)
    if isinstance(k, Num):
        raise Unsupported("unknown string index")
    return I.err(st, "TypeError", "string indices must be integers", node, cx)


def setitem(I, st, o, k, v, cx, node):
    if isinstance(o, Ref):
        h = st.get(o)
        if isinstance(h, Obj):
            f = I.class_lookup(st, h.cls, "__setitem__")
            if f is not None and not isinstance(f, BFn):
                return [(st, r if isinstance(r, Abrupt) else None) for st, r in I.call(st, I.bind(st, f, o, h.cls), [k, v], {}, cx, node)]
            if h.pk == "list":
                return list_setitem(I, st, o, k, v, cx, node)
            if h.pk in ("dict", "idict"):
                return dict_set(I, st, o, k, v, cx, node)
    return I.err(st, "TypeError", "'%s' object does not support item assignment" % I.tname(st, o), node, cx)


def delitem(I, st, o, k, cx, node):
    if isinstance(o, Ref):
        h = st.get(o)
        if isinstance(h, Obj):
            f = I.class_lookup(st, h.cls, "__delitem__")
            if f is not None and not isinstance(f, BFn):
                return [(st, r if isinstance(r, Abrupt) else None) for st, r in I.call(st, I.bind(st, f, o, h.cls), [k], {}, cx, node)]
            if h.pk == "list":
                return list_delitem(I, st, o, k, cx, node)
            if h.pk in ("dict", "idict"):
                return dict_delitem(I, st, o, k, cx, node)
    return I.err(st, "TypeError", "'%s' object doesn't support item deletion" % I.tname(st, o), node, cx)


# ---------------------------------------------------------------------------- builtin functions
def len_(I, st, v, cx, node):
    if isinstance(v, Tup):
        return [(st, len(v.items))]
    if isinstance(v, (str, bytes, range)):
        return [(st, len(v))]
    if isinstance(v, Str):
        n = S.fixed_len(v)
        if n is not None:
            return [(st, n)]
        p = pconst(sum(len(x) for x in v.parts if isinstance(x, str)))
        for x in v.parts:
            if isinstance(x, str):
                continue
            if x.hi is not None and x.lo == x.hi:
                p = padd(p, pconst(x.lo))
                continue
            n = patom(atom("len", (S.mk([x]),), "int"))
            st.assume_sign(*norm_ge(psub(n, pconst(x.lo))))
            if x.hi is not None:
                st.assume_sign(*norm_ge(psub(pconst(x.hi), n)))
            p = padd(p, n)
        return [(st, Num(p, "int"))]
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Obj):
            f = I.class_lookup(st, o.cls, "__len__")
            if f is not None and not isinstance(f, BFn):
                return I.call(st, I.bind(st, f, v, o.cls), [], {}, cx, node)
            if o.pk in ("list", "tuple"):
                return [(st, len(o.pv))]
            if o.pk in ("dict", "set", "idict"):
                return [(st, len(pview(st, o)))]
            if o.pk == "str":
                return len_(I, st, o.pv, cx, node)
    return I.err(st, "TypeError", "object of type '%s' has no len()" % I.tname(st, v), node, cx)


def norm_ge(p):
    q, s = N.normal(p)
    return q, (GE0 if s > 0 else LE0)


def sort_items(I, st, items, kw, cx, node):
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if key is not None:
        res = thread(I, st, items, lambda st, x: I.call(st, key, [x], {}, cx, node))
    else:
        res = [(st, items)]

    def f(st, keys):
        if all(isinstance(k, NATIVE) for k in keys) or all(isinstance(k, Tup) and all(isinstance(x, NATIVE) for x in k.items) for k in keys):
            hk = [tuple(k.items) if isinstance(k, Tup) else k for k in keys]
            try:
                order = sorted(range(len(items)), key=lambda i: hk[i], reverse=bool(rev))
            except TypeError as e:
                return I.err(st, "TypeError", str(e), node, cx)
            return [(st, [items[i] for i in order])]
        if all(isinstance(k, Tup) and k.items and isinstance(k.items[0], str) for k in keys) and len({k.items[0] for k in keys}) == len(keys):
            order = sorted(range(len(items)), key=lambda i: keys[i].items[0], reverse=bool(rev))
            return [(st, [items[i] for i in order])]
        # insertion sort with partitions
        cur = [(st, [])]
        for i in range(len(items)):
            nxt = []
            for st, acc in cur:
                if isinstance(acc, Abrupt):
                    nxt.append((st, acc))
                    continue
                nxt.extend(insert(st, acc, i, len(acc)))
            cur = nxt
        return [(st, acc if isinstance(acc, Abrupt) else [items[j] for j in acc]) for st, acc in cur]

    def insert(st, acc, i, pos):
        if pos == 0:
            return [(st, [i] + acc)]
        out = []
        x, y = (f_keys[0][i], f_keys[0][acc[pos - 1]])
        if rev:
            x, y = y, x
        for st, r in I.compare(st, ast.Lt(), x, y, cx, node):
            if isinstance(r, Abrupt):
                out.append((st, r))
                continue
            for st, t in I.truth(st, r, cx, node):
                if isinstance(t, Abrupt):
                    out.append((st, t))
                elif t:
                    out.extend(insert(st, acc, i, pos - 1))
                else:
                    out.append((st, acc[:pos] + [i] + acc[pos:]))
        return out

    f_keys = [None]

    def g(st, keys):
        f_keys[0] = keys
        return f(st, keys)
    return then(res, g)


def extremum(op):
    def f(I, st, a, kw, cx, node):
        key = kw.get("key")
        if len(a) == 1:
            res = I.to_list(st, a[0], cx, node)
        else:
            res = [(st, list(a))]

        def g(st, items):
            if not items:
                if "default" in kw:
                    return [(st, kw["default"])]
                return I.err(st, "ValueError", "arg is an empty sequence", node, cx)

            def h(st, keys):
                mark = st.nxt
                cur = [(st, 0)]
                for i in range(1, len(items)):
                    nxt = []
                    for st, b in cur:
                        if isinstance(b, Abrupt):
                            nxt.append((st, b))
                            continue
                        for st, r in I.compare(st, op, keys[i], keys[b], cx, node):
                            if isinstance(r, Abrupt):
                                nxt.append((st, r))
                                continue
                            for st, t in I.truth(st, r, cx, node):
                                nxt.append((st, t if isinstance(t, Abrupt) else (i if t else b)))
                    cur = nxt
                return [(st, b if isinstance(b, Abrupt) else items[b]) for st, b in cur]
            if key is None:
                return h(st, items)
            return then(thread(I, st, items, lambda st, x: I.call(st, key, [x], {}, cx, node)), h)
        return then(res, g)
    return f


def b_abs(I, st, a, kw, cx, node):
    v = a[0]
    if isinstance(v, Num):
        return then(I.truth(st, sign_bool(v.p, LT0), cx, node), lambda st, t: [(st, I.mknum(pneg(v.p), v.ty) if t else v)])
    if isinstance(v, (int, float)):
        return [(st, abs(v))]
    if isinstance(v, Ref) and isinstance(st.get(v), Obj):
        f = I.class_lookup(st, st.get(v).cls, "__abs__")
        if f is not None:
            return I.call(st, I.bind(st, f, v, st.get(v).cls), [], {}, cx, node)
    return I.err(st, "TypeError", "bad operand type for abs()", node, cx)


def b_round(I, st, a, kw, cx, node):
    v = a[0]
    nd = arg(a, kw, 1, "ndigits")
    if isinstance(v, BoolV):
        return then(I.branch(st, v, cx, node), lambda st, t: [(st, int(t))])
    if isinstance(v, (int, float)):
        if isinstance(v, float) and nd is None and v == v and abs(v) != float("inf"):
            return [(st, round(Fraction(repr(v))))]
        return nat(I, st, lambda: round(v) if nd is None else round(v, nd), node, cx)
    if isinstance(v, Num):
        if nd is None:
            return [(st, I.mknum(round_poly(I, st, v.p), "int"))]
        if isinstance(nd, int):
            k = Fraction(10) ** nd
            r = round_poly(I, st, pscale(v.p, k))
            return [(st, I.mknum(pscale(r, 1 / k), v.ty))]
        raise Unsupported("round")
    if isinstance(v, Ref) and isinstance(st.get(v), Obj):
        f = I.class_lookup(st, st.get(v).cls, "__round__")
        if f is not None:
            return I.call(st, I.bind(st, f, v, st.get(v).cls), a[1:], {}, cx, node)
    return I.err(st, "TypeError", "type doesn't define __round__ method", node, cx)


def b_sum(I, st, a, kw, cx, node):
    start = arg(a, kw, 1, "start", 0)

    def f(st, items):
        cur = [(st, start)]
        for x in items:
            nxt = []
            for st, acc in cur:
                nxt.extend([(st, acc)] if isinstance(acc, Abrupt) else I.binop(st, ast.Add(), acc, x, cx, node))
            cur = nxt
        return cur
    return then(I.to_list(st, a[0], cx, node), f)


def quant(want):
    """any (want=True) / all (want=False)"""
    def f(I, st, a, kw, cx, node):
        def step(st, item):
            res = []
            for st, t in I.truth(st, item, cx, node):
                res.append((st, t if isinstance(t, Abrupt) else ("stop" if t is want else None)))
            return res
        out = []
        for st, sig in I.iter_each(st, a[0], cx, node, step):
            out.append((st, sig if isinstance(sig, Abrupt) else (want if sig == "stop" else not want)))
        return out
    return f


def b_getattr(I, st, a, kw, cx, node):
    if not isinstance(a[1], str):
        if isinstance(a[1], Str):
            raise Unsupported("getattr with an unknown name")
        return I.err(st, "TypeError", "attribute name must be string", node, cx)
    res = I.getattr_(st, a[0], a[1], cx, node)
    if len(a) < 3:
        return res
    out = []
    for st, v in res:
        if isinstance(v, Raise) and EXC["AttributeError"] in I.mro_of(st, st.get(v.exc).cls):
            out.append((st, a[2]))
        else:
            out.append((st, v))
    return out


def b_hasattr(I, st, a, kw, cx, node):
    if not isinstance(a[1], str):
        raise Unsupported("hasattr with an unknown name")
    out = []
    for st, v in I.getattr_(st, a[0], a[1], cx, node):
        if isinstance(v, Raise) and EXC["AttributeError"] in I.mro_of(st, st.get(v.exc).cls):
            out.append((st, False))
        elif isinstance(v, Abrupt):
            out.append((st, v))
        else:
            out.append((st, True))
    return out


def b_setattr(I, st, a, kw, cx, node):
    if not isinstance(a[1], str):
        if isinstance(a[1], Str):
            raise Unsupported("setattr with an unknown name")
        return I.err(st, "TypeError", "attribute name must be string", node, cx)
    return I.setattr_(st, a[0], a[1], a[2], cx, node)


def b_delattr(I, st, a, kw, cx, node):
    if not isinstance(a[1], str):
        raise Unsupported("delattr with an unknown name")
    return I.delattr_(st, a[0], a[1], cx, node)


def b_iter(I, st, a, kw, cx, node):
    v = a[0]
    if len(a) > 1:
        return gen_shim(I, st, "iter_", [v, a[1]], cx, node)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, (GenO, IterO)):
            return [(st, v)]
        if isinstance(o, Obj):
            f = I.class_lookup(st, o.cls, "__iter__")
            if f is not None and not isinstance(f, BFn):
                return I.call(st, I.bind(st, f, v, o.cls), [], {}, cx, node)
    items = I.seq_items(st, v)
    if items is None:
        if isinstance(v, Str):
            raise Unsupported("iteration over an unknown string")
        return I.err(st, "TypeError", "'%s' object is not iterable" % I.tname(st, v), node, cx)
    return [(st, st.new(IterO(tuple(items))))]


def b_next(I, st, a, kw, cx, node):
    v = a[0]
    o = st.get(v) if isinstance(v, Ref) else None

    def stop(st):
        if len(a) > 1:
            return [(st, a[1])]
        return I.err(st, "StopIteration", None, node, cx)
    if isinstance(o, IterO):
        k = o.i
        if k >= len(o.items):
            return stop(st)
        st.mut(v).i = k + 1
        return [(st, o.items[k])]
    if isinstance(o, GenO):
        if o.used is True:
            return stop(st)
        n = o.used or 0
        if n and o.kind != "expr":
            raise Unsupported("resumption of a generator")
        st.mut(v).used = n + 1

        def step(st, item):
            return [(st, ("hit", item))]
        out = []
        for st, sig in (I.run_rest(st, o, step, n) if n else I.run_gen(st, o, step, False)):
            if isinstance(sig, tuple):
                out.append((st, sig[1]))
            elif sig is None:
                st.mut(v).used = True
                out.extend(stop(st))
            else:
                out.append((st, sig))
        return out
    if isinstance(o, Obj) and I.class_lookup(st, o.cls, "__next__") is not None:
        out = []
        for st, r in I.call_method(st, v, "__next__", [], cx, node):
            if isinstance(r, Raise) and len(a) > 1 and EXC["StopIteration"] in I.mro_of(st, st.get(r.exc).cls):
                out.append((st, a[1]))
            else:
                out.append((st, r))
        return out
    return I.err(st, "TypeError", "object is not an iterator", node, cx)


iterator_.methods["__next__"] = BFn("iterator.__next__", lambda I, st, a, kw, cx, node: b_next(I, st, a[:1], kw, cx, node))
iterator_.methods["__iter__"] = BFn("iterator.__iter__", lambda I, st, a, kw, cx, node: [(st, a[0])])
generator_.methods["__next__"] = iterator_.methods["__next__"]
generator_.methods["__iter__"] = iterator_.methods["__iter__"]
for _nm in ("send", "throw"):
    generator_.methods[_nm] = BFn("generator." + _nm, lambda I, st, a, kw, cx, node: I.unsupported(st, "generator.send", node, cx))
generator_.methods["close"] = BFn("generator.close", lambda I, st, a, kw, cx, node: [(st, None)])


def b_type(I, st, a, kw, cx, node):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, Num) and v.ty in ("num", "real"):
            raise Unsupported("int or float?")
        return [(st, I.type_of(st, v))]
    if len(a) == 3:
        def f(st, bases):
            items = pview(st, st.get(a[2]))
            return I.make_class(st, a[0], tuple(bases) or (object_,), {k: v for k, v in items.values()}, cx, node)
        return then(I.to_list(st, a[1], cx, node), f)
    return I.err(st, "TypeError", "type() takes 1 or 3 arguments", node, cx)


def new_type(I, st, a, kw, cx, node):
    """type.__new__(metaclass, name, bases, namespace)"""
    if len(a) == 2 and a[0] is type_:
        return [(st, I.type_of(st, a[1]))]
    if len(a) != 4:
        return I.err(st, "TypeError", "type.__new__() takes exactly 3 arguments", node, cx)
    meta = a[0] if isinstance(a[0], Ref) else None

    def f(st, bases):
        ns = {k: v for k, v in pview(st, st.get(a[3])).values()}
        ns.pop("$cell", None)
        return I.make_class(st, a[1], tuple(bases) or (object_,), ns, cx, node, None, kw, meta)
    return then(I.to_list(st, a[2], cx, node), f)


type_.methods["__new__"] = BFn("type.__new__", new_type)
type_.methods["__init__"] = BFn("type.__init__", lambda I, st, a, kw, cx, node: [(st, None)])
type_.methods["__call__"] = BFn("type.__call__", lambda I, st, a, kw, cx, node: I.instantiate(st, a[0], st.get(a[0]), a[1:], kw, cx, node)
                                if isinstance(a[0], Ref) else I.call(st, a[0], a[1:], kw, cx, node))


def b_issubclass(I, st, a, kw, cx, node):
    c, d = a
    ds = flat_types(d) if isinstance(d, Tup) else [d]
    if not isinstance(c, BCls) and not (isinstance(c, Ref) and isinstance(st.get(c), ClsO)):
        return I.err(st, "TypeError", "issubclass() arg 1 must be a class", node, cx)
    mro = I.mro_of(st, c)
    return [(st, any(x in mro for x in ds))]


def lazy(name, f):
    """a lazy iterator computed eagerly (results as an IterO)"""
    def g(I, st, a, kw, cx, node):
        return [(s, i if isinstance(i, Abrupt) else s.new(IterO(tuple(i)))) for s, i in f(I, st, a, kw, cx, node)]
    return g


def endless(I, st, v):
    o = st.get(v) if isinstance(v, Ref) else None
    if isinstance(o, Obj) and isinstance(o.cls, Ref):
        c = st.get(o.cls)
        return c.mod == "itertools" and c.name in ("count", "cycle", "repeat") and "times" not in o.attrs
    return False


def f_zip(I, st, a, kw, cx, node):
    inf = [i for i, x in enumerate(a) if endless(I, st, x)]
    if inf and len(inf) < len(a):
        def h2(st, ls):
            n = min(len(x) for x in ls)
            full = thread(I, st, [a[i] for i in inf], lambda st, x: take(I, st, x, n, cx, node))

            def h3(st, more):
                more, fin = list(more), list(ls)
                cols = [more.pop(0) if i in inf else fin.pop(0) for i in range(len(a))]
                return [(st, [Tup(t) for t in zip(*cols)])]
            return then(full, h3)
        return then(thread(I, st, [x for i, x in enumerate(a) if i not in inf], lambda st, x: I.to_list(st, x, cx, node)), h2)

    def h(st, ls):
        if kw.get("strict") and len({len(x) for x in ls}) > 1:
            return I.err(st, "ValueError", "zip() arguments have different lengths", node, cx)
        return [(st, [Tup(t) for t in zip(*ls)])]
    return then(thread(I, st, a, lambda st, x: I.to_list(st, x, cx, node)), h)


def take(I, st, v, n, cx, node):
    cur = [(st, [])]
    for _ in range(n):
        nxt = []
        for st, xs in cur:
            if isinstance(xs, Abrupt):
                nxt.append((st, xs))
                continue
            for st, x in b_next(I, st, [v], {}, cx, node):
                nxt.append((st, x if isinstance(x, Abrupt) else xs + [x]))
        cur = nxt
    return cur


def f_enumerate(I, st, a, kw, cx, node):
    start = arg(a, kw, 1, "start", 0)
    return [(s, i if isinstance(i, Abrupt) else [Tup((start + n, x)) for n, x in enumerate(i)]) for s, i in I.to_list(st, a[0], cx, node)]


def gen_shim(I, st, name, args, cx, node):
    """a lazy iterator defined by an interpreted generator function"""
    out = []
    for st, m in I.load(st, "_lazy", node, cx):
        if isinstance(m, Abrupt):
            out.append((st, m))
        else:
            out.extend(I.call(st, st.get(m).ns[name], args, {}, cx, node))
    return out


str_.methods["maketrans"] = SM(BFn("str.maketrans", lambda I, st, a, kw, cx, node: I.unsupported(st, "str.maketrans", node, cx)))


def f_reversed(I, st, a, kw, cx, node):
    v = a[0]
    o = st.get(v) if isinstance(v, Ref) else None
    if isinstance(o, Obj):
        f = I.class_lookup(st, o.cls, "__reversed__")
        if f is not None and not isinstance(f, BFn):
            return I.call(st, I.bind(st, f, v, o.cls), [], {}, cx, node)
    items = I.seq_items(st, v)
    if items is None:
        return I.err(st, "TypeError", "object is not reversible", node, cx)
    return [(st, st.new(IterO(tuple(reversed(items)))))]


def f_range(I, st, a, kw, cx, node):
    a = [I.implied_int(st, x) if isinstance(x, Num) and I.implied_int(st, x) is not None else x for x in a]
    for x in a:
        if isinstance(x, Num):
            raise Unsupported("range of unknown length")
        if not isinstance(x, int):
            return I.err(st, "TypeError", "object cannot be interpreted as an integer", node, cx)
    return nat(I, st, lambda: range(*a), node, cx)


def b_vars(I, st, a, kw, cx, node):
    if not a:
        raise Unsupported("vars()")
    return I.getattr_(st, a[0], "__dict__", cx, node)


def b_dir(I, st, a, kw, cx, node):
    v = a[0]
    names = set()
    c = v if (isinstance(v, BCls) or (isinstance(v, Ref) and isinstance(st.get(v), ClsO))) else I.type_of(st, v)
    for k in I.mro_of(st, c):
        names |= set(I.cls_ns(st, k))
    if isinstance(v, Ref) and isinstance(st.get(v), Obj):
        names |= set(st.get(v).attrs)
    return [(st, I.new_list(st, sorted(n for n in names if not n.startswith("$"))))]


def b_divmod(I, st, a, kw, cx, node):
    return then(I.binop(st, ast.FloorDiv(), a[0], a[1], cx, node),
                lambda st, q: then(I.binop(st, ast.Mod(), a[0], a[1], cx, node), lambda st, r: [(st, Tup((q, r)))]))


def b_print(I, st, a, kw, cx, node):
    return [(st, None)]


def b_hash(I, st, a, kw, cx, node):
    v = a[0]
    h = hashable(I, st, v)
    if h is False:
        return I.err(st, "TypeError", "unhashable type", node, cx)
    if isinstance(v, Ref) and isinstance(st.get(v), Obj):
        f = I.class_lookup(st, st.get(v).cls, "__hash__")
        if f is not None and not isinstance(f, BFn):
            return I.call(st, I.bind(st, f, v, st.get(v).cls), [], {}, cx, node)
    # the hash is a function of the value: inputs that are equal in this partition have one representative
    same = {}
    for p, signs in st.signs.items():
        if signs == EQ0 and len(p.t) == 2 and all(len(m) == 1 for m, c in p.t) and p.t[0][1] == -p.t[1][1]:
            x, y = sorted((p.t[0][0][0], p.t[1][0][0]), reverse=True)
            same[x] = y

    def canon(v):
        if isinstance(v, Tup):
            return Tup(tuple(canon(x) for x in v.items))
        if isinstance(v, Num) and len(v.p.t) == 1 and v.p.t[0][1] == 1 and len(v.p.t[0][0]) == 1:
            x = v.p.t[0][0][0]
            for _ in range(20):
                x = same.get(x, x)
            return Num(patom(x), v.ty)
        return v
    return [(st, Num(patom(atom("hash", repr(hkey(canon(v))), "int")), "int"))]


def b_id(I, st, a, kw, cx, node):
    v = a[0]
    return [(st, 1000000 + v.a if isinstance(v, Ref) else hash(repr(v)))]


def b_super(I, st, a, kw, cx, node):
    if len(a) == 2:
        return [(st, SuperV(a[0], a[1]))]
    raise Unsupported("super()")


def b_pow(I, st, a, kw, cx, node):
    return I.binop(st, ast.Pow(), a[0], a[1], cx, node)


def b_property(I, st, a, kw, cx, node):
    return [(st, Prop(arg(a, kw, 0, "fget"), arg(a, kw, 1, "fset"), arg(a, kw, 2, "fdel")))]


def b_format(I, st, a, kw, cx, node):
    return format_(I, st, a[0], a[1] if len(a) > 1 else "", cx, node)


def b_isinstance(I, st, a, kw, cx, node):
    return isinstance_(I, st, a[0], a[1], cx, node)


def b_globals(I, st, a, kw, cx, node):
    return [(st, I.snapshot_dict(st, st.get(cx.mod).ns))]


FUNCS = {
    "abs": b_abs, "round": b_round, "sum": b_sum, "any": quant(True), "all": quant(False),
    "min": extremum(ast.Lt()), "max": extremum(ast.Gt()), "getattr": b_getattr, "hasattr": b_hasattr,
    "setattr": b_setattr, "delattr": b_delattr, "iter": b_iter, "next": b_next, "issubclass": b_issubclass,
    "isinstance": b_isinstance, "vars": b_vars, "dir": b_dir, "divmod": b_divmod, "print": b_print,
    "hash": b_hash, "id": b_id, "pow": b_pow, "format": b_format, "globals": b_globals,
    "len": lambda I, st, a, kw, cx, node: len_(I, st, a[0], cx, node),
    "repr": lambda I, st, a, kw, cx, node: repr_(I, st, a[0], cx, node),
    "callable": lambda I, st, a, kw, cx, node: [(st, callable_(I, st, a[0]))],
    "sorted": lambda I, st, a, kw, cx, node: then(I.to_list(st, a[0], cx, node), lambda st, i: then(sort_items(I, st, i, kw, cx, node), lambda st, r: [(st, I.new_list(st, r))])),
    "ord": lambda I, st, a, kw, cx, node: nat(I, st, lambda: ord(a[0]), node, cx) if isinstance(a[0], str) else I.unsupported(st, "ord", node, cx),
    "chr": lambda I, st, a, kw, cx, node: nat(I, st, lambda: chr(a[0]), node, cx) if isinstance(a[0], int) else I.unsupported(st, "chr", node, cx),
    "oct": lambda I, st, a, kw, cx, node: nat(I, st, lambda: oct(a[0]), node, cx) if isinstance(a[0], int) else I.unsupported(st, "oct", node, cx),
    "locals": lambda I, st, a, kw, cx, node: [(st, I.snapshot_dict(st, {k: v for k, v in (st.get(cx.env).vars if cx.env is not None else st.get(cx.mod).ns).items() if not k.startswith("$")}))],
    "hex": lambda I, st, a, kw, cx, node: nat(I, st, lambda: hex(a[0]), node, cx) if isinstance(a[0], int) else I.unsupported(st, "hex", node, cx),
    "bin": lambda I, st, a, kw, cx, node: nat(I, st, lambda: bin(a[0]), node, cx) if isinstance(a[0], int) else I.unsupported(st, "bin", node, cx),
}


def call_class(I, st, c, a, kw, cx, node):
    """calling a builtin class"""
    if c is object_:
        return [(st, st.new(Obj(object_)))]
    if c is type_:
        return b_type(I, st, a, kw, cx, node)
    if c is str_:
        if not a:
            return [(st, "")]
        return str_of(I, st, a[0], cx, node)
    if c is int_:
        if not a:
            return [(st, 0)]
        return to_int(I, st, a[0], arg(a, kw, 1, "base"), cx, node)
    if c is float_:
        if not a:
            return [(st, 0.0)]
        return to_float(I, st, a[0], cx, node)
    if c is bool_:
        if not a:
            return [(st, False)]
        if isinstance(a[0], BoolV):
            return [(st, a[0])]
        return I.truth(st, a[0], cx, node)
    if c in (list_, deque_):
        if kw or len(a) > 1:
            raise Unsupported("deque with a maximal length")
        if not a:
            return [(st, st.new(Obj(c, pk="list", pv=())))]
        return [(s, i if isinstance(i, Abrupt) else s.new(Obj(c, pk="list", pv=tuple(i)))) for s, i in I.to_list(st, a[0], cx, node)]
    if c is tuple_:
        if not a:
            return [(st, Tup(()))]
        return [(s, i if isinstance(i, Abrupt) else Tup(i)) for s, i in I.to_list(st, a[0], cx, node)]
    if c in (dict_, OrderedDict_, defaultdict_, Counter_):
        ref = st.new(Obj(c, pk="dict", pv={}))
        f = I.class_lookup(st, c, "__init__")
        return [(s, r if isinstance(r, Abrupt) else ref) for s, r in f.fn(I, st, [ref] + a, kw, cx, node)]
    if c in (set_, frozenset_):
        return make_set_from(I, st, a, cx, node, c)
    if c is range_:
        return f_range(I, st, a, kw, cx, node)
    if c is zip_:
        return lazy("zip", f_zip)(I, st, a, kw, cx, node)
    if c is enumerate_:
        v = a[0]
        o = st.get(v) if isinstance(v, Ref) else None
        if isinstance(o, GenO):
            return gen_shim(I, st, "enumerate_", [v, arg(a, kw, 1, "start", 0)], cx, node)
        return lazy("enumerate", f_enumerate)(I, st, a, kw, cx, node)
    if c is reversed_:
        return f_reversed(I, st, a, kw, cx, node)
    if c is map_:
        return gen_shim(I, st, "map_", a, cx, node)
    if c is filter_:
        return gen_shim(I, st, "filter_", a, cx, node)
    if c is property_:
        return b_property(I, st, a, kw, cx, node)
    if c is staticmethod_:
        return [(st, SM(a[0]))]
    if c is classmethod_:
        return [(st, CM(a[0]))]
    if c is super_:
        return b_super(I, st, a, kw, cx, node)
    if c is slice_:
        x = list(a) + [None] * 3
        return [(st, SliceV(None, a[0], None) if len(a) == 1 else SliceV(*x[:3]))]
    if EXC["BaseException"] in c.mro:
        if kw:
            return I.err(st, "TypeError", "%s() takes no keyword arguments" % c.name, node, cx)
        return [(st, st.new(Obj(c, {"args": Tup(a)})))]
    if c is SimpleNamespace_:
        return [(st, st.new(Obj(c, dict(kw))))]
    if c is mappingproxy_:
        return [(st, a[0])]
    if c is partial_:
        return [(st, st.new(Obj(partial_, {"func": a[0], "args": Tup(a[1:]), "keywords": new_dict(st, kw.items())})))]
    if c is cachedprop_:
        return [(st, st.new(Obj(cachedprop_, {"func": a[0]})))]
    if c is bytes_ or c is complex_:
        return I.unsupported(st, c.name, node, cx)
    ctor = c.methods.get("$call")
    if ctor is not None:
        return ctor.fn(I, st, a, kw, cx, node)
    return I.unsupported(st, "call of " + c.name, node, cx)


@method(partial_, "__call__")
def _(I, st, a, kw, cx, node):
    o = st.get(a[0])
    k = {kk: v for kk, v in st.get(o.attrs["keywords"]).pv.values()}
    k.update(kw)
    return I.call(st, o.attrs["func"], list(o.attrs["args"].items) + a[1:], k, cx, node)


@method(cachedprop_, "__set_name__")
def _(I, st, a, kw, cx, node):
    st.mut(a[0]).attrs["name"] = a[2]
    return [(st, None)]


@method(cachedprop_, "__get__")
def _(I, st, a, kw, cx, node):
    o = st.get(a[0])
    if a[1] is None:
        return [(st, a[0])]

    def f(st, v):
        st.mut(a[1]).attrs[o.attrs["name"]] = v
        return [(st, v)]
    return then(I.call(st, o.attrs["func"], [a[1]], {}, cx, node), f)


# numeric methods
def _isint(I, st, a, kw, cx, node):
    v = a[0]
    if isinstance(v, float):
        return [(st, v.is_integer())]
    if isinstance(v, Num):
        return [(st, sign_bool(psub(v.p, I.floor(st, v.p)), EQ0))]
    return [(st, True)]


float_.methods["is_integer"] = BFn("float.is_integer", _isint)
int_.methods["is_integer"] = BFn("int.is_integer", _isint)
for _c in (int_, float_):
    _c.methods["conjugate"] = BFn("conjugate", lambda I, st, a, kw, cx, node: [(st, a[0])])
    _c.methods["__round__"] = BFn("__round__", b_round)
    _c.methods["__abs__"] = BFn("__abs__", b_abs)
    _c.methods["__int__"] = BFn("__int__", lambda I, st, a, kw, cx, node: to_int(I, st, a[0], None, cx, node))
    _c.methods["__float__"] = BFn("__float__", lambda I, st, a, kw, cx, node: to_float(I, st, a[0], cx, node))
    _c.methods["__eq__"] = BFn("__eq__", lambda I, st, a, kw, cx, node: I.eq(st, a[0], a[1], cx, node) if isinstance(a[1], (int, float, Num, BoolV)) else [(st, NotImplemented)])
for _nm, _op in (("__add__", ast.Add), ("__sub__", ast.Sub), ("__mul__", ast.Mult), ("__truediv__", ast.Div), ("__floordiv__", ast.FloorDiv), ("__mod__", ast.Mod), ("__pow__", ast.Pow)):
    def _mk3(op):
        def f(I, st, a, kw, cx, node):
            if isinstance(a[1], (int, float, Num, BoolV)):
                return I.binop(st, op(), a[0], a[1], cx, node)
            return [(st, NotImplemented)]
        return f
    for _c in (int_, float_):
        _c.methods[_nm] = BFn(_nm, _mk3(_op))


def namespace(I):
    ns = {n: BFn(n, f) for n, f in FUNCS.items()}
    ns.update(TYPES)
    ns.update(EXC)
    ns["NotImplemented"] = NotImplemented
    ns["Ellipsis"] = Ellipsis
    ns["__name__"] = "builtins"
    ns["__debug__"] = True
    return ns


def stdlib_module(I, st, name):
    from . import stdlib
    return stdlib.module(I, st, name)
