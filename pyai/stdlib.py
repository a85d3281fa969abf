"""Models of the standard library modules and of the specification primitives (module vp)."""
import ast
import math
import re as _re
import string as _string
from fractions import Fraction

from . import num as N
from . import strs as S
from .num import atom, padd, patom, pconst, pmul, pneg, pscale, psub
from .strs import Str, Tok
from .values import *
from .values import sign_bool
from . import builtins as B
from .builtins import nat, then, abstract, method, arg
from .interp import NATIVE, EQ0, NE0, GT0, GE0, LT0, LE0, rel


def mod(st, name, ns):
    return st.new(ModO(name, dict(ns, __name__=name), None))


def fn(name):
    def deco(f):
        return BFn(name, f)
    return deco


# ------------------------------------------------------------------ re
def re_obj(st, m):
    """host match object -> abstract"""
    if m is None:
        return None
    return st.new(Obj(B.match_, {"$m": Host(m)}))


class Host:
    """an immutable host object, opaque for the analysed program"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(("Host", repr(self.v)))

    def __eq__(self, o):
        return isinstance(o, Host) and (o.v is self.v or repr(o.v) == repr(self.v))


def re_compile(I, st, a, kw, cx, node):
    p = a[0]
    flags = arg(a, kw, 1, "flags", 0)
    if isinstance(p, Ref) and isinstance(st.get(p), Obj) and st.get(p).cls is B.pattern_:
        return [(st, p)]
    if not isinstance(p, str) or not isinstance(flags, int):
        return I.unsupported(st, "re.compile", node, cx)

    def f(st, c):
        return [(st, st.new(Obj(B.pattern_, {"$p": Host(c), "pattern": p, "flags": flags})))]
    return then(I.native(st, lambda: _re.compile(p, flags), node, cx), f)


def re_op(name):
    def f(I, st, a, kw, cx, node):
        pat = st.get(a[0]).attrs["$p"].v
        rest = [B._sself(I, st, x) for x in a[1:]]
        if any(isinstance(x, Str) for x in rest):
            r = template_match(I, st, pat, name, rest, cx, node)
            if r is not None:
                return r
            return I.unsupported(st, "regular expression on an unknown string", node, cx)
        if name == "sub" and len(rest) == 2 and isinstance(rest[1], str) and not isinstance(rest[0], NATIVE):
            return re_sub_fn(I, st, pat, rest[0], rest[1], cx, node)
        if not all(isinstance(x, NATIVE) for x in rest) or not all(isinstance(x, NATIVE) for x in kw.values()):
            return I.unsupported(st, "re." + name, node, cx)

        def g(st, r):
            if name in ("match", "fullmatch", "search"):
                return [(st, re_obj(st, r))]
            if name == "finditer":
                return [(st, st.new(IterO(tuple(re_obj(st, m) for m in r))))]
            return [(st, abstract(I, st, r))]
        return then(I.native(st, lambda: (list(getattr(pat, name)(*rest, **kw)) if name == "finditer" else getattr(pat, name)(*rest, **kw)), node, cx), g)
    return f


def re_sub_fn(I, st, pat, f, s, cx, node):
    """substitution with a function"""
    cur = [(st, [])]
    pos = 0
    for m in pat.finditer(s):
        nxt = []
        for st, parts in cur:
            if isinstance(parts, Abrupt):
                nxt.append((st, parts))
                continue
            for st, r in I.call(st, f, [re_obj(st, m)], {}, cx, node):
                nxt.append((st, r if isinstance(r, Abrupt) else parts + [s[pos:m.start()], r]))
        cur = nxt
        pos = m.end()
    out = []
    for st, parts in cur:
        if isinstance(parts, Abrupt):
            out.append((st, parts))
        elif all(isinstance(B._sself(I, st, x), (str, Str)) for x in parts):
            out.append((st, S.mk([B._sself(I, st, x) for x in parts] + [s[pos:]])))
        else:
            out.extend(I.unsupported(st, "re.sub", node, cx))
    return out


def template_match(I, st, pat, name, rest, cx, node):
    return None


for _n in ("match", "fullmatch", "search", "split", "findall", "finditer", "sub"):
    B.pattern_.methods[_n] = BFn("Pattern." + _n, re_op(_n))


def re_fn(name):
    def f(I, st, a, kw, cx, node):
        k = 3 if name == "sub" else 2
        flags = kw.get("flags", 0)
        extra = list(a[1:])
        if len(extra) >= k and name not in ("split", "sub"):
            flags = extra.pop()
        return then(re_compile(I, st, [a[0], flags], {}, cx, node), lambda st, p: re_op(name)(I, st, [p] + extra, {}, cx, node))
    return f


def m_method(name):
    def f(I, st, a, kw, cx, node):
        m = st.get(a[0]).attrs["$m"].v
        return nat(I, st, lambda: getattr(m, name)(*a[1:]), node, cx)
    return f


for _n in ("group", "groups", "start", "end", "span", "groupdict", "__getitem__"):
    B.match_.methods[_n] = BFn("Match." + _n, m_method(_n))


# ------------------------------------------------------------------ math
def math_fn(name):
    f = getattr(math, name)

    def g(I, st, a, kw, cx, node):
        vals = list(a)
        if name == "fsum":
            return I.call(st, B.namespace(I)["sum"], vals, kw, cx, node)
        if all(isinstance(x, (int, float)) for x in vals):
            return nat(I, st, lambda: f(*vals), node, cx)
        if name == "dist":
            return I.unsupported(st, "math.dist", node, cx)
        for x in vals:
            if not isinstance(x, (Num, int, float, BoolV)):
                return I.err(st, "TypeError", "must be real number", node, cx)
        x = vals[0]
        if isinstance(x, Num):
            if name == "floor":
                return [(st, I.mknum(I.floor(st, x.p), "int"))]
            if name == "ceil":
                return [(st, I.mknum(pneg(I.floor(st, pneg(x.p))), "int"))]
            if name == "trunc":
                return [(st, I.mknum(I.trunc(st, x.p), "int"))]
            if name == "fabs":
                return B.b_abs(I, st, [x], {}, cx, node)
            if name in ("isnan", "isinf"):
                return [(st, False)]
            if name == "isfinite":
                return [(st, True)]
            if name == "fmod":
                return I.unsupported(st, "math.fmod", node, cx)
        return I.unsupported(st, "math." + name, node, cx)
    return BFn("math." + name, g)


def isclose(I, st, a, kw, cx, node):
    if all(isinstance(x, (int, float)) for x in a):
        return nat(I, st, lambda: math.isclose(*a, **kw), node, cx)
    return I.unsupported(st, "math.isclose", node, cx)


# ------------------------------------------------------------------ ast
def literal_eval(I, st, a, kw, cx, node):
    s = a[0]
    if isinstance(s, str):
        def f():
            v = ast.literal_eval(s)
            if not isinstance(v, (str, int, float, bytes, bool, type(None), list, tuple, dict, set, complex)):
                raise ValueError("malformed node")
            return v
        return nat(I, st, f, node, cx)
    if isinstance(s, Str):
        ps = s.parts
        if isinstance(ps[0], str) and isinstance(ps[-1], str) and len(ps[0]) >= 1 and len(ps) >= 3 and ps[0][0] in "'\"" and ps[-1][-1] == ps[0][0]:
            q = ps[0][0]
            inner = [ps[0][1:]] + list(ps[1:-1]) + [ps[-1][:-1]]
            if all((isinstance(p, str) and not set(p) & {q, "\\", "\n", "\r", "\0"}) or
                   (isinstance(p, Tok) and p.chars is not None and not p.chars & {q, "\\", "\n", "\r", "\0"}) for p in inner if p != ""):
                return [(st, S.mk(inner))]
        nums = [p for p in ps if isinstance(p, Tok) and p.kind in ("int", "float", "num") and p.atom is not None]
        if len(ps) == 1 and nums and nums[0].kind == "int":
            return [(st, I.mknum(B.tokval(nums[0]), "int"))]
        may = lambda cs: any((set(p) & set(cs)) if isinstance(p, str) else p.chars is None or p.chars & set(cs) for p in ps)
        kinds = (["str", "bytes"] if may("'\"") else []) + ["None", "True", "False"] + (["int", "float"] if may("0123456789") else []) + (["complex"] if may("0123456789") and may("jJ") else [])
        kinds += (["list", "tuple", "dict", "set"] if may("([{") else []) + ["ValueError", "TypeError"]
        kinds = [k for k in kinds if k not in ("None", "True", "False") or S.may_equal(s, k)]
        out = []
        for k in kinds:
            res = I.branch(st, BoolV("p", ("str", "leval", s, k), True), cx, node)
            st = None
            for s1, t in res:
                if not t:
                    st = s1
                elif k in ("None", "True", "False"):
                    out.append((s1, {"None": None, "True": True, "False": False}[k]))
                elif k == "str":
                    out.append((s1, B.derive(("leval",), s)))
                elif k in ("int", "float"):
                    out.append((s1, Num(patom(atom("parselit", (s,), "int" if k == "int" else "real")), k)))
                elif k.endswith("Error"):
                    out.extend(I.err(s1, k, "malformed node or string", node, cx))
                else:
                    out.extend(I.unsupported(s1, "literal_eval of an unknown string", node, cx))
            if st is None:
                return out
        return out + I.err(st, "SyntaxError", "invalid syntax", node, cx)
    if isinstance(s, Ref):
        return I.err(st, "ValueError", "malformed node or string", node, cx)
    return I.err(st, "ValueError", "malformed node or string", node, cx)


# ------------------------------------------------------------------ native helpers for the shims
def wraps(I, st, a, kw, cx, node):
    wrapped = a[0]

    def deco(I, st, b, kw, cx, node):
        w = b[0]
        if isinstance(w, Ref) and isinstance(st.get(w), FnO):
            m = st.mut(w)
            if isinstance(wrapped, Ref) and isinstance(st.get(wrapped), FnO):
                o = st.get(wrapped)
                m.attrs.update(o.attrs)
                m.attrs["__name__"] = o.attrs.get("__name__", o.name)
            m.attrs["__wrapped__"] = wrapped
        return [(st, w)]
    return [(st, BFn("wraps.<deco>", deco))]


def gcm(I, st, a, kw, cx, node):
    return [(st, st.new(Obj(B.gcm_, {"_gcm_gen": a[0]})))]


def noop(name):
    return BFn(name, lambda I, st, a, kw, cx, node: [(st, None)])


def ident(name):
    return BFn(name, lambda I, st, a, kw, cx, node: [(st, a[-1])])


class _Opaque:
    pass


def opaque(st, name):
    return st.new(Obj(B.opaque_, {"name": name}))


B.opaque_.methods["__getitem__"] = BFn("opaque[]", lambda I, st, a, kw, cx, node: [(st, a[0])])
B.opaque_.methods["__or__"] = BFn("opaque|", lambda I, st, a, kw, cx, node: [(st, a[0])])
B.opaque_.methods["__ror__"] = BFn("opaque|", lambda I, st, a, kw, cx, node: [(st, a[0])])


def from_shim(I, st, shim, name):
    def f(I, st, a, kw, cx, node):
        return then(I.load(st, shim, node, cx), lambda st, m: I.call(st, st.get(m).ns[name], a, kw, cx, node))
    return BFn(name, f)


def module(I, st, name):
    if name == "vp":
        from . import vp
        return mod(st, "vp", vp.namespace(I))
    if name == "_native":
        return mod(st, name, {"wraps": BFn("wraps", wraps), "partial": B.partial_, "cached_property": B.cachedprop_, "_gcm": BFn("_gcm", gcm)})
    if name == "re":
        ns = {n: BFn("re." + n, re_fn(n)) for n in ("match", "fullmatch", "search", "split", "findall", "finditer", "sub")}
        ns["compile"] = BFn("re.compile", re_compile)
        ns["escape"] = BFn("re.escape", lambda I, st, a, kw, cx, node: nat(I, st, lambda: _re.escape(a[0]), node, cx))
        for f in ("VERBOSE", "IGNORECASE", "MULTILINE", "DOTALL", "ASCII", "X", "I", "M", "S", "A", "UNICODE", "U"):
            ns[f] = int(getattr(_re, f))
        ns["error"] = B.EXC["ValueError"]
        ns["Pattern"], ns["Match"] = B.pattern_, B.match_
        return mod(st, name, ns)
    if name == "math":
        ns = {n: math_fn(n) for n in ("floor", "ceil", "trunc", "fabs", "isnan", "isinf", "isfinite", "fmod", "sqrt", "gcd", "copysign", "hypot", "degrees", "radians", "sin", "cos", "tan", "atan2", "log", "exp", "pow", "fsum", "lcm", "isqrt", "factorial", "comb", "perm", "dist", "cbrt", "modf", "frexp", "ldexp", "remainder", "nextafter", "ulp", "expm1", "log1p", "sinh", "cosh", "tanh", "log10", "log2", "atan", "asin", "acos")}
        ns["prod"] = from_shim(I, st, "_lazy", "prod_")
        ns.update(pi=math.pi, e=math.e, tau=math.tau, inf=math.inf, nan=math.nan, isclose=BFn("isclose", isclose))
        return mod(st, name, ns)
    if name == "ast":
        return mod(st, name, {"literal_eval": BFn("ast.literal_eval", literal_eval)})
    if name == "collections":
        return mod(st, name, {"OrderedDict": B.OrderedDict_, "defaultdict": B.defaultdict_, "deque": B.deque_, "Counter": B.Counter_,
                              "namedtuple": from_shim(I, st, "_nt", "namedtuple"), "ChainMap": from_shim(I, st, "_nt", "ChainMap"),
                              "abc": module(I, st, "collections.abc")})
    if name == "collections.abc":
        r = I.modules.get(name)
        if r is not None and st.get(r) is not None:
            return r
        m = mod(st, name, dict(B.ABCS))
        I.modules[name] = m
        return m
    if name == "numbers":
        return mod(st, name, dict(B.NUMABC))
    if name == "typing":
        ns = {n: opaque(st, n) for n in ("Any", "Optional", "Union", "List", "Dict", "Tuple", "Set", "FrozenSet", "Callable", "Iterable", "Iterator",
                                         "Sequence", "Mapping", "Type", "ClassVar", "Final", "Literal", "Generator", "NoReturn", "MutableMapping",
                                         "Self", "TypeAlias", "Hashable", "Collection", "Annotated", "Text", "AnyStr", "Deque", "DefaultDict")}
        ns["TYPE_CHECKING"] = False
        ns["cast"] = ident("cast")
        ns["overload"] = ident("overload")
        ns["final"] = ident("final")
        ns["TypeVar"] = BFn("TypeVar", lambda I, st, a, kw, cx, node: [(st, opaque(st, "TypeVar"))])
        r = I.load(st, "_nt")
        if len(r) == 1 and isinstance(r[0][1], Ref):
            ns["NamedTuple"] = st.get(r[0][1]).ns["NamedTuple"]
        ns["Generic"], ns["Protocol"] = opaque(st, "Generic"), opaque(st, "Protocol")
        return mod(st, name, ns)
    if name == "types":
        return mod(st, name, {"SimpleNamespace": B.SimpleNamespace_, "MappingProxyType": B.mappingproxy_, "FunctionType": B.function_,
                              "MethodType": BFn("MethodType", lambda I, st, a, kw, cx, node: [(st, BM(a[0], a[1]))]), "NoneType": B.NoneType_,
                              "ModuleType": B.module_, "GeneratorType": B.generator_, "LambdaType": B.function_})
    if name == "abc":
        return mod(st, name, {"ABC": B.object_, "ABCMeta": B.type_, "abstractmethod": ident("abstractmethod")})
    if name == "string":
        return mod(st, name, {n: getattr(_string, n) for n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "hexdigits", "octdigits", "punctuation", "whitespace", "printable")})
    if name == "sys":
        return mod(st, name, {"version_info": Tup((3, 12, 3, "final", 0)), "maxsize": 2 ** 63 - 1,
                              "intern": ident("intern"), "modules": st.new(Obj(B.dict_, pk="dict", pv={}))})
    if name in ("warnings", "logging"):
        ns = {n: noop(n) for n in ("warn", "simplefilter", "filterwarnings", "debug", "info", "warning", "error", "exception", "critical", "basicConfig")}
        ns["getLogger"] = BFn("getLogger", lambda I, st, a, kw, cx, node: [(st, I.modules[name])])
        return mod(st, name, ns)
    if name == "__future__":
        return mod(st, name, {n: True for n in ("annotations", "division", "unicode_literals")})
    import sys as _sys
    if name.split(".")[0] in _sys.stdlib_module_names:
        return mod(st, name, {})
    return None
