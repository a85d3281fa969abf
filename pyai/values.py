"""Abstract values, heap objects and abstract states."""
from .num import ALL, Poly, feasible, normal, pconst, psub


class Num:
    """A number: polynomial normal form + type (int / float / num: int iff whole)"""
    __slots__ = ("p", "ty")

    def __init__(self, p, ty):
        self.p, self.ty = p, ty

    def __hash__(self):
        return hash((self.p, self.ty))

    def __eq__(self, o):
        return self is o or (isinstance(o, Num) and o.p == self.p and o.ty == self.ty)

    def __repr__(self):
        return "Num<%s:%s>" % (self.p, self.ty)


class BoolV:
    """An undetermined truth value.  kind 's': sign(poly) in signs; 'p': opaque predicate"""
    __slots__ = ("kind", "key", "val")

    def __init__(self, kind, key, val):
        self.kind, self.key, self.val = kind, key, val

    def __hash__(self):
        return hash((self.kind, self.key, self.val))

    def __eq__(self, o):
        return isinstance(o, BoolV) and (o.kind, o.key, o.val) == (self.kind, self.key, self.val)

    def __repr__(self):
        if self.kind == "s":
            r = {(1,): "> 0", (0,): "== 0", (-1,): "< 0", (0, 1): ">= 0", (-1, 0): "<= 0", (-1, 1): "!= 0"}
            return "[%s %s]" % (self.key, r.get(tuple(sorted(self.val)), self.val))
        return "[%s%s]" % ("" if self.val else "not ", show_pred(self.key))

    def neg(self):
        if self.kind == "s":
            return BoolV("s", self.key, ALL - self.val)
        return BoolV("p", self.key, not self.val)


def show_pred(key):
    return repr(key)


def sign_bool(poly, signs):
    """BoolV or bool for sign(poly) in signs"""
    c = poly.const()
    if c is not None:
        return (0 if c == 0 else (1 if c > 0 else -1)) in signs
    q, s = normal(poly)
    if s < 0:
        signs = frozenset(-x for x in signs)
    return BoolV("s", q, frozenset(signs))


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __hash__(self):
        return hash(("Tup", self.items))

    def __eq__(self, o):
        return self is o or (isinstance(o, Tup) and len(o.items) == len(self.items) and all(same(a, b) for a, b in zip(self.items, o.items)))

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __hash__(self):
        return self.a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __repr__(self):
        return "@%d" % self.a


class BFn:
    """Builtin function: fn(I, st, args, kwargs, cx, node) -> results"""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class BM:
    """Bound method"""
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __hash__(self):
        return hash(("BM", self.func))

    def __eq__(self, o):
        return isinstance(o, BM) and o.func == self.func and same(o.self_, self.self_)


class Prop:
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel

    def __hash__(self):
        return hash(("Prop", self.fget, self.fset, self.fdel))

    def __eq__(self, o):
        return isinstance(o, Prop) and (o.fget, o.fset, o.fdel) == (self.fget, self.fset, self.fdel)


class SM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class CM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class BCls:
    """Builtin class"""
    def __init__(self, name, bases=(), module="builtins"):
        self.name = name
        self.bases = bases
        self.module = module
        self.methods = {}
        mro = [self]
        for b in bases:
            for c in b.mro:
                if c not in mro:
                    mro.append(c)
        # keep object last
        obj = [c for c in mro if c.name == "object"]
        self.mro = [c for c in mro if c.name != "object"] + obj

    def __repr__(self):
        return "<class %s>" % self.name


class Abrupt:
    __slots__ = ()


class Raise(Abrupt):
    __slots__ = ("exc", "site")

    def __init__(self, exc, site=None):
        self.exc, self.site = exc, site

    def __hash__(self):
        return hash(("R", self.exc))

    def __eq__(self, o):
        return isinstance(o, Raise) and o.exc == self.exc


class Stuck(Abrupt):
    """Analysis gave up on this partition (unmodelled construct)"""
    __slots__ = ("why", "site")

    def __init__(self, why, site=None):
        self.why, self.site = why, site

    def __hash__(self):
        return hash(("S", self.why))

    def __eq__(self, o):
        return isinstance(o, Stuck) and o.why == self.why


class Unk:
    """the value of a name whose definition is not modelled: any use is undecided"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __hash__(self):
        return hash(("Unk", self.why))

    def __eq__(self, o):
        return isinstance(o, Unk) and o.why == self.why


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(("Ret", hv(self.v)))

    def __eq__(self, o):
        return isinstance(o, Ret) and same(self.v, o.v)


class _Brk:
    pass


BRK = _Brk()
CNT = _Brk()


class Unsupported(Exception):
    pass


def hv(v):
    try:
        return hash(v)
    except TypeError:
        return id(v)


def same(a, b):
    """Are two abstract values identical (not: denote equal objects)?"""
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is str:
        return False      # distinct objects: identity of strings matters
    if ta is float:
        return a == b and repr(a) == repr(b)
    try:
        return a == b
    except Exception:
        return False


# --------------------------------------------------------------------------
# Heap objects.  Copy-on-write, owned by at most one state.
# --------------------------------------------------------------------------
class HO:
    __slots__ = ("own",)


class Obj(HO):
    """Instance.  pk: payload kind (None, 'list', 'tuple', 'dict', 'set', 'str', 'num')"""
    __slots__ = ("cls", "attrs", "pk", "pv", "sites")

    def __init__(self, cls, attrs=None, pk=None, pv=None):
        self.cls, self.attrs, self.pk, self.pv = cls, attrs if attrs is not None else {}, pk, pv
        self.sites = {}
        self.own = None

    def copy(self):
        o = Obj(self.cls, dict(self.attrs), self.pk, self.pv)
        o.sites = dict(self.sites)
        return o

    def eq(self, o):
        if type(o) is not Obj or o.cls is not self.cls and o.cls != self.cls or o.pk != self.pk:
            return False
        if o.attrs is not self.attrs:
            if len(o.attrs) != len(self.attrs):
                return False
            for k, v in self.attrs.items():
                if k not in o.attrs or not same(v, o.attrs[k]):
                    return False
            if list(o.attrs) != list(self.attrs):
                return False
        return payload_same(self.pk, self.pv, o.pv)

    def children(self):
        yield self.cls
        yield from self.attrs.values()
        yield from payload_children(self.pk, self.pv)


def payload_same(pk, a, b):
    if a is b:
        return True
    if pk in ("list", "tuple"):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if pk in ("dict", "set"):
        if len(a) != len(b):
            return False
        for (k1, x), (k2, y) in zip(a.items(), b.items()):
            if k1 != k2 or not same(x[0], y[0]) or not same(x[1], y[1]):
                return False
        return True
    return same(a, b)


def payload_children(pk, pv):
    if pk in ("list", "tuple"):
        yield from pv
    elif pk in ("dict", "set"):
        for k, v in pv.values():
            yield k
            yield v
    elif pk is not None:
        yield pv


class ClsO(HO):
    __slots__ = ("name", "bases", "ns", "mro", "mod", "qual", "meta")

    def __init__(self, name, bases, ns, mro, mod, qual, meta=None):
        self.name, self.bases, self.ns, self.mro, self.mod, self.qual = name, bases, ns, mro, mod, qual
        self.meta = meta           # user-defined metaclass
        self.own = None

    def copy(self):
        return ClsO(self.name, self.bases, dict(self.ns), self.mro, self.mod, self.qual, self.meta)

    def eq(self, o):
        return type(o) is ClsO and o.name == self.name and o.mro == self.mro and dsame(self.ns, o.ns)

    def children(self):
        yield from self.bases
        yield from self.mro
        if self.meta is not None:
            yield self.meta
        yield from self.ns.values()


def dsame(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for k, v in a.items():
        if k not in b or not same(v, b[k]):
            return False
    return True


class FnO(HO):
    __slots__ = ("node", "mod", "env", "defaults", "kwdefaults", "name", "qual", "attrs", "cls", "info", "file")

    def __init__(self, node, mod, env, defaults, kwdefaults, name, qual, cls, info, file):
        self.node, self.mod, self.env, self.defaults, self.kwdefaults = node, mod, env, defaults, kwdefaults
        self.name, self.qual, self.cls, self.info, self.file = name, qual, cls, info, file
        self.attrs = {}
        self.own = None

    def copy(self):
        f = FnO(self.node, self.mod, self.env, self.defaults, self.kwdefaults, self.name, self.qual, self.cls, self.info, self.file)
        f.attrs = dict(self.attrs)
        return f

    def eq(self, o):
        return (type(o) is FnO and o.node is self.node and o.env == self.env and o.cls == self.cls
                and len(o.defaults) == len(self.defaults) and all(same(a, b) for a, b in zip(o.defaults, self.defaults))
                and dsame(self.kwdefaults, o.kwdefaults) and dsame(self.attrs, o.attrs))

    def children(self):
        yield self.env
        yield self.mod
        yield self.cls
        yield from self.defaults
        yield from self.kwdefaults.values()
        yield from self.attrs.values()


class EnvO(HO):
    __slots__ = ("vars", "parent", "kind", "locals")

    def __init__(self, vars, parent, kind, locals_):
        self.vars, self.parent, self.kind, self.locals = vars, parent, kind, locals_
        self.own = None

    def copy(self):
        return EnvO(dict(self.vars), self.parent, self.kind, self.locals)

    def eq(self, o):
        return type(o) is EnvO and o.parent == self.parent and dsame(self.vars, o.vars)

    def children(self):
        yield self.parent
        yield from self.vars.values()


class ModO(HO):
    __slots__ = ("name", "ns", "file", "loaded")

    def __init__(self, name, ns, file):
        self.name, self.ns, self.file = name, ns, file
        self.own = None

    def copy(self):
        return ModO(self.name, dict(self.ns), self.file)

    def eq(self, o):
        return type(o) is ModO and o.name == self.name and dsame(self.ns, o.ns)

    def children(self):
        yield from self.ns.values()


class GenO(HO):
    """Lazy iterable: kind 'expr' (node, cx, first iterable) or 'func' (callable closure)"""
    __slots__ = ("kind", "node", "cx", "src", "used", "name")

    def __init__(self, kind, node, cx, src):
        self.kind, self.node, self.cx, self.src = kind, node, cx, src
        self.used = False
        self.own = None

    def copy(self):
        g = GenO(self.kind, self.node, self.cx, self.src)
        g.used = self.used
        return g

    def eq(self, o):
        return type(o) is GenO and o.node is self.node and o.used == self.used and same(o.src, self.src) and o.cx is self.cx

    def children(self):
        if self.cx is not None:
            yield self.cx.env
        yield self.src


class IterO(HO):
    __slots__ = ("items", "i")

    def __init__(self, items, i=0):
        self.items, self.i = items, i
        self.own = None

    def copy(self):
        return IterO(self.items, self.i)

    def eq(self, o):
        return type(o) is IterO and o.i == self.i and len(o.items) == len(self.items) and all(same(a, b) for a, b in zip(o.items, self.items))

    def children(self):
        yield from self.items


def refs_of(v, out):
    """Collect the heap addresses that a value holds"""
    t = type(v)
    if t is Ref:
        out.append(v.a)
    elif t is Tup:
        for x in v.items:
            refs_of(x, out)
    elif t is BM:
        refs_of(v.func, out)
        refs_of(v.self_, out)
    elif t is Prop:
        refs_of(v.fget, out)
        refs_of(v.fset, out)
        refs_of(v.fdel, out)
    elif t is SM or t is CM:
        refs_of(v.f, out)
    elif t is SuperV:
        refs_of(v.cls, out)
        refs_of(v.obj, out)
    elif t is Ret:
        refs_of(v.v, out)
    elif t is Raise:
        refs_of(v.exc, out)
    elif t is SliceV:
        refs_of(v.lo, out)
        refs_of(v.hi, out)


class State:
    __slots__ = ("base", "ov", "nxt", "signs", "preds", "trace", "depth", "tok", "strs")
    _tok = 0

    def __init__(self, base):
        self.base = base
        self.ov = {}
        self.nxt = 0
        self.signs = {}
        self.preds = {}
        self.strs = {}
        self.trace = None
        self.depth = 0
        self.newtok()

    def newtok(self):
        State._tok += 1
        self.tok = State._tok

    def fork(self):
        s = State.__new__(State)
        s.base, s.ov, s.nxt = self.base, dict(self.ov), self.nxt
        s.signs, s.preds, s.trace, s.depth = self.signs, self.preds, self.trace, self.depth
        s.strs = self.strs
        State._tok += 2
        s.tok = State._tok - 1
        self.tok = State._tok
        return s

    def get(self, ref):
        o = self.ov.get(ref.a)
        if o is None:
            o = self.base.get(ref.a)
        return o

    def new(self, o):
        a = self.nxt
        self.nxt = a + 1
        o.own = self.tok
        self.ov[a] = o
        return Ref(a)

    def mut(self, ref):
        """The object, writable"""
        o = self.ov.get(ref.a)
        if o is None:
            o = self.base[ref.a]
        if o.own == self.tok:
            return o
        o = o.copy()
        o.own = self.tok
        self.ov[ref.a] = o
        return o

    # facts ---------------------------------------------------------------
    def assume_sign(self, p, signs):
        """Refine in place; False if the partition is empty"""
        cur = self.signs.get(p, ALL)
        n = cur & signs
        if n == cur:
            return True
        if not n:
            return False
        d = dict(self.signs)
        d[p] = n
        self.signs = d
        return feasible(d)

    def assume_pred(self, key, val):
        cur = self.preds.get(key)
        if cur is None:
            d = dict(self.preds)
            d[key] = val
            self.preds = d
            return True
        return cur == val
