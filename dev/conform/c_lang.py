import collections
import functools
import itertools
import operator
import math
import re
import enum
from collections import namedtuple, defaultdict, OrderedDict, Counter, deque, ChainMap
from contextlib import contextmanager, suppress
from dataclasses import dataclass, field, replace, astuple, asdict
from functools import partial, lru_cache, wraps, reduce, singledispatch, cached_property, total_ordering
from typing import NamedTuple, Optional
from fractions import Fraction
import colorsys


def t_match():
    out = []
    for x in (1, "a", (1, 2), [1, 2, 3], {"k": 4, "z": 5}, None, 2.5, (), {"q": 1}):
        match x:
            case 1 | 2:
                out.append("int")
            case str() as s if s == "a":
                out.append(s)
            case (a, b):
                out.append(a + b)
            case [a, *rest]:
                out.append(rest)
            case {"k": v, **more}:
                out.append((v, more))
            case None:
                out.append("none")
            case float(y):
                out.append(y)
            case ():
                out.append("empty")
            case _:
                out.append("other")
    return out


class P:
    __match_args__ = ("x", "y")

    def __init__(self, x, y):
        self.x, self.y = x, y


def t_match_class():
    out = []
    for p in (P(1, 2), P(0, 5), P("a", None), 3):
        match p:
            case P(0, y):
                out.append(y)
            case P(x=1, y=z):
                out.append(z)
            case P(x, None):
                out.append(x)
            case _:
                out.append("?")
    return out


def t_walrus():
    return [y for x in range(10) if (y := x * x) % 3 == 1], (n := 5) + n


def t_genexp():
    g = (x * 2 for x in range(5))
    return next(g), list(g), next(g, "end"), sum(x for x in [1, 2, 3]), max((len(w) for w in ["a", "bbb"]), default=0)


def gen(n):
    got = []
    for i in range(n):
        r = yield i
        if r:
            got.append(r)
    return got


def t_generator():
    g = gen(3)
    a = next(g)
    b = g.send("x")
    c = next(g)
    try:
        next(g)
    except StopIteration as e:
        return a, b, c, e.value


def sub(n):
    r = yield from gen(n)
    yield r


def t_yield_from():
    return list(sub(3))


def t_try():
    out = []
    for k in range(4):
        try:
            out.append(k)
            if k == 1:
                raise ValueError("v")
            if k == 2:
                raise KeyError("k")
            if k == 3:
                continue
        except ValueError as e:
            out.append(str(e))
        except (KeyError, TypeError) as e:
            out.append(repr(e))
        else:
            out.append("else")
        finally:
            out.append("fin")
    return out


def t_nested_finally():
    def f():
        try:
            return 1
        finally:
            out.append("f")
    out = []
    return f(), out


def t_raise_from():
    try:
        try:
            {}["x"]
        except KeyError as e:
            raise ValueError("bad") from e
    except ValueError as e:
        return type(e.__cause__).__name__, str(e)


def t_loops():
    out = []
    for i in range(5):
        if i == 7:
            break
    else:
        out.append("else")
    n = 0
    while n < 10:
        n += 3
        if n == 6:
            continue
        if n > 8:
            break
    else:
        out.append("no")
    return out, n


def t_closures():
    def counter():
        n = 0

        def inc(k=1):
            nonlocal n
            n += k
            return n
        return inc
    a, b = counter(), counter()
    a()
    a(5)
    return a(), b()


def t_lambda_late():
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    return [f() for f in fs], [g() for g in gs]


def t_args():
    def f(a, b=2, *c, d, e=5, **k):
        return a, b, c, d, e, k

    def g(a, /, b, *, c):
        return a, b, c
    return f(1, d=4), f(1, 2, 3, 4, d=0, z=9), f(*[1, 2], **{"d": 3}), g(1, b=2, c=3), f(*(1,), *(2, 3), d=1)


def t_args_bad():
    out = []
    for call in (lambda: t_match(1), lambda: gen(), lambda: gen(n=1, m=2), lambda: P(1), lambda: P(1, 2, 3), lambda: P(1, x=2)):
        try:
            call()
        except TypeError as e:
            out.append("TypeError")
    return out


def t_unpack():
    a, (b, *c), d = 1, (2, 3, 4), 5
    *x, y = "abc"
    [m, n] = {1: 2, 3: 4}
    i = j = 7
    return a, b, c, d, x, y, m, n, i, j


def t_aug():
    x = [1, 2]
    y = x
    x += [3]
    z = (1,)
    w = z
    z += (2,)
    d = {"a": 1}
    d["a"] += 5
    d |= {"b": 2}
    s = {1, 2, 3}
    s &= {2, 3, 4}
    s -= {3}
    return y, w, z, d, s


def t_slices():
    x = list(range(10))
    x[2:4] = ["a", "b", "c"]
    del x[-1]
    return x[::2], x[::-1], x[1:3], x[-3:], "hello"[1:-1], "hello"[::-1], (1, 2, 3)[:2], x.index("b"), x[slice(0, 2)]


def t_dict():
    d = {"a": 1, "b": 2}
    e = dict(d, c=3)
    f = {**d, "z": 0}
    g = dict([("x", 1)], y=2)
    d.setdefault("q", []).append(1)
    p = d.pop("a", None), d.pop("zz", "no")
    return d, e, f, g, p, list(e.items()), list(e), list(reversed(e)), dict.fromkeys("ab", 0), e.get("k", 5), "a" in e, {v: k for k, v in e.items()}, e | f, d == {"b": 2, "q": [1]}


def t_dict_views():
    d = {"a": 1, "b": 2}
    return sorted(d.keys() & {"a", "z"}), sorted(d.keys() | {"z"}), sorted(d.keys() - {"a"}), d.keys() == {"a", "b"}, ("a", 1) in d.items(), d.popitem(), len(d), list(d.values())


def t_sets():
    a, b = {1, 2, 3}, frozenset((2, 3, 4))
    return a & b, a | b, a - b, a ^ b, a <= {1, 2, 3, 4}, a.isdisjoint({9}), a.issuperset({1}), {x for x in a if x > 1}, a.union([7], (8,)), sorted(a.intersection(b)), a < a, a == {3, 2, 1}


def t_set_methods():
    a = {1}
    a.add(2)
    a.discard(9)
    a.update([3, 4])
    a.remove(1)
    try:
        a.remove(99)
    except KeyError:
        a.add("err")
    return a


def t_list_methods():
    x = [3, 1, 2]
    x.sort()
    y = sorted(x, key=lambda v: -v)
    x.insert(0, 9)
    x.extend((7, 8))
    x.remove(1)
    x.reverse()
    p = x.pop(), x.pop(0)
    return x, y, p, x.count(7), x + [1], x * 2, 7 in x, [1, 2] < [1, 3], [] == [], x.copy() is x


def t_strings():
    s = "Hello, World"
    return (s.lower(), s.upper(), s.title(), s.swapcase(), s.split(", "), s.partition(","), s.rpartition("o"), s.find("o"), s.rfind("o"), s.index("W"), s.count("o"), s.replace("o", "0", 1),
            s.startswith(("x", "He")), s.endswith("ld"), s.center(20, "*"), s.ljust(15) + "|", s.rjust(15), "7".zfill(3), s.removeprefix("Hello"), s.removesuffix("ld"), ",".join(["a", "b"]), "a-b_c".replace("-", "_"),
            "abc".isalpha(), "123".isdigit(), "a1".isalnum(), " ".isspace(), "Ab".isupper(), "abc".islower(), "x_1".isidentifier(), "1".isnumeric(), "²".isdigit(), "a\nb".splitlines(), "a  b ".split(), "  x ".strip(), "xxaxx".strip("x"),
            "abc".translate(str.maketrans("ab", "xy")), "abc".translate({97: None}), "%s-%d-%5.2f-%r-%%" % ("a", 3, 2.5, "q"), "%(a)s" % {"a": 1}, "{} {1} {x!r:>5}".format if False else "{0} {1} {x!r:>5}".format(1, 2, x="q"), f"{1 + 1:03d} {s!r} {2.5:.1f} {'x':>3} {255:#x} {1e6:,.0f}",
            "a,b,c".rsplit(",", 1), "a,b,c".split(",", 1), "ß".casefold(), "abc" * 2, "b" in "abc", "a" < "b", "tEST".capitalize(), "\t".expandtabs(4), ord("a"), chr(98), "abc"[0], "abc"[-1], str(3), repr("a'b"), ascii("é"), "x".encode(), b"x".decode())


def t_numbers():
    return 7 // 2, -7 // 2, 7 % 3, -7 % 3, divmod(-7, 2), 2 ** 10, 2 ** -1, 7 / 2, round(2.5), round(3.5), round(2.567, 2), abs(-3), int("12"), int(3.9), int(-3.9), int("ff", 16), float("2.5"), bool(0), 5 & 3, 5 | 3, 5 ^ 3, ~5, 1 << 4, 256 >> 2, min(3, 1, 2), max([1, 5, 2]), sum([1, 2], 10), pow(2, 5), pow(2, 5, 7), 1 < 2 < 3, 1 < 3 < 2, 3 == 3.0, hash(3) == hash(3.0), int("-5"), float("-1e3"), hex(255), bin(5), oct(8), (5).bit_length(), (2.0).is_integer(), 0.1 + 0.2 == 0.3, isinstance(True, int)


def t_math():
    return math.floor(-2.5), math.ceil(2.1), math.trunc(-2.7), math.sqrt(9), math.isclose(1.0, 1.0 + 1e-12), math.gcd(12, 18), math.prod([2, 3]) , math.isfinite(1.0), math.fsum([0.5, 0.25]), math.copysign(2, -1), math.inf > 5, math.fmod(7, 3), math.hypot(3, 4), math.pi


def t_itertools():
    return (list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.product("ab", (1, 2))), list(itertools.combinations("abc", 2)), list(itertools.permutations((1, 2))),
            list(itertools.zip_longest([1, 2], "a", fillvalue=0)), list(itertools.accumulate([1, 2, 3])), list(itertools.islice(itertools.count(5), 3)), list(itertools.takewhile(lambda x: x < 3, [1, 2, 5, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 2, 5, 1])),
            [(k, list(g)) for k, g in itertools.groupby("aabc")], list(itertools.starmap(pow, [(2, 3)])), list(itertools.repeat(1, 2)), list(itertools.islice(itertools.cycle("ab"), 3)), list(itertools.pairwise([1, 2, 3])), list(itertools.compress("abc", [1, 0, 1])), list(itertools.filterfalse(None, [0, 1])))


def t_tee():
    a, b = itertools.tee([1, 2])
    return list(a), list(b)


def t_functools():
    add = partial(operator.add, 5)
    return add(2), reduce(operator.mul, [1, 2, 3, 4]), reduce(lambda a, b: a + [b], [1], []), operator.itemgetter(1)([5, 6]), operator.attrgetter("x")(P(1, 2)), operator.methodcaller("upper")("a"), operator.attrgetter("x", "y")(P(1, 2)), operator.itemgetter(0, 1)("ab"), operator.neg(3), operator.contains([1], 1), operator.not_(0), operator.is_(None, None)


@lru_cache(maxsize=None)
def fib(n):
    return n if n < 2 else fib(n - 1) + fib(n - 2)


@functools.cache
def sq(n):
    return n * n


def t_cache():
    return fib(20), sq(4), sq(4)


def deco(f):
    @wraps(f)
    def g(*a, **k):
        return ("d", f(*a, **k))
    return g


def deco2(tag):
    def d(f):
        @wraps(f)
        def g(*a, **k):
            return (tag, f(*a, **k))
        return g
    return d


@deco
@deco2("x")
def decorated(a, b=3):
    "doc"
    return a + b


def t_deco():
    return decorated(1), decorated(1, b=5), decorated.__name__, decorated.__doc__


@singledispatch
def sd(x):
    return "obj"


@sd.register(int)
def _(x):
    return "int"


@sd.register
def _(x: str):
    return "str"


def t_singledispatch():
    return sd(1), sd("a"), sd(None), sd(True)


class Base:
    kind = "base"
    count = 0

    def __init__(self, x):
        self.x = x
        Base.count += 1

    @property
    def double(self):
        return self.x * 2

    @double.setter
    def double(self, v):
        self.x = v / 2

    @classmethod
    def make(cls, *a):
        return cls(*a)

    @staticmethod
    def helper(v):
        return v + 1

    def who(self):
        return "base" + self.kind

    def __eq__(self, o):
        return isinstance(o, Base) and self.x == o.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return f"{type(self).__name__}({self.x!r})"

    def __lt__(self, o):
        return self.x < o.x

    def __add__(self, o):
        return type(self)(self.x + (o.x if isinstance(o, Base) else o))

    __radd__ = __add__

    def __getitem__(self, i):
        return self.x + i

    def __len__(self):
        return 3

    def __contains__(self, v):
        return v == self.x

    def __iter__(self):
        yield self.x
        yield self.double

    def __call__(self, a):
        return a + self.x

    def __bool__(self):
        return self.x != 0

    def __neg__(self):
        return type(self)(-self.x)


class Derived(Base):
    kind = "derived"

    def __init__(self, x, y=0):
        super().__init__(x)
        self.y = y

    def who(self):
        return super().who() + "!"


def t_classes():
    b, d = Base(2), Derived.make(3)
    b.double = 10
    return b.x, b.double, d.who(), Base.helper(1), d == Base(3), b != d, repr(d), sorted([d, b]), (b + d).x, (1 + b).x, b[2], len(b), 5 in b, list(b), b(1), bool(Base(0)), (-b).x, isinstance(d, Base), issubclass(Derived, Base), type(d).__name__, Derived.__mro__[1].__name__, hasattr(d, "y"), getattr(d, "zz", 4), vars(d), d.__dict__["x"], {d: 1}[Base(3)], Derived.__bases__[0] is Base, d.__class__ is Derived, callable(d), max(b, d).x


class Desc:
    def __init__(self, default):
        self.default = default

    def __set_name__(self, owner, name):
        self.name = "_" + name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return getattr(obj, self.name, self.default)

    def __set__(self, obj, v):
        if v == "bad":
            raise ValueError("bad")
        setattr(obj, self.name, v)

    def __delete__(self, obj):
        try:
            delattr(obj, self.name)
        except AttributeError:
            pass


class HasDesc:
    a = Desc(1)
    b = Desc(2)
    __slots__ = ("_a", "_b", "z")


def t_desc():
    h = HasDesc()
    h.a = 5
    out = [h.a, h.b]
    del h.a
    out.append(h.a)
    try:
        h.a = "bad"
    except ValueError as e:
        out.append(str(e))
    try:
        h.q = 1
    except AttributeError:
        out.append("slots")
    return out, isinstance(HasDesc.a, Desc)


class Meta(type):
    def __new__(mcs, name, bases, ns, **kw):
        ns["tag"] = name.lower()
        return super().__new__(mcs, name, bases, ns)

    def __call__(cls, *a):
        o = super().__call__(*a)
        o.made = True
        return o


class WithMeta(metaclass=Meta):
    pass


def t_meta():
    return WithMeta.tag, WithMeta().made


class Sub:
    registry = []

    def __init_subclass__(cls, flag=False, **kw):
        super().__init_subclass__(**kw)
        Sub.registry.append((cls.__name__, flag))


class S1(Sub, flag=True):
    pass


def t_init_subclass():
    return Sub.registry


class GA:
    def __init__(self):
        object.__setattr__(self, "d", {})

    def __getattr__(self, n):
        if n.startswith("x"):
            return n
        raise AttributeError(n)

    def __setattr__(self, n, v):
        self.d[n] = v

    def __delattr__(self, n):
        del self.d[n]


def t_getattr():
    g = GA()
    g.q = 3
    out = [g.x1, hasattr(g, "y"), dict(g.d)]
    del g.q
    return out, g.d


@dataclass
class DC:
    a: int
    b: str = "x"
    c: list = field(default_factory=list)

    def total(self):
        return self.a


@dataclass(frozen=True, order=True)
class FR:
    a: int
    b: int = 2


def t_dataclass():
    d = DC(1)
    e = DC(1, c=[])
    f = FR(1)
    out = [d == e, repr(d), d.c is e.c, f < FR(2), hash(f) == hash(FR(1)), replace(f, b=9).b, asdict(d), astuple(f)]
    try:
        f.a = 3
    except Exception as x:
        out.append(type(x).__name__)
    return out


class NT(NamedTuple):
    a: int
    b: int = 5

    def s(self):
        return self.a + self.b


NT2 = namedtuple("NT2", "x y", defaults=(7,))


def t_namedtuple():
    n, m = NT(1), NT2(1)
    a, b = n
    return n.a, n.s(), a, b, m.y, m._replace(x=5).x, m._asdict(), n == (1, 5), len(m), NT2._fields, repr(m), m[0], isinstance(n, tuple), NT2(*[3, 4]).y, NT2._make([1, 2]).y


class Color(enum.Enum):
    RED = 1
    GREEN = 2


def t_enum():
    return Color.RED.value, Color.RED.name, Color(2).name, Color["RED"].value, [c.name for c in Color], Color.RED is Color.RED, Color.RED == Color.GREEN, isinstance(Color.RED, Color)


@contextmanager
def cm(out):
    out.append("in")
    try:
        yield 5
    except ValueError:
        out.append("caught")
    finally:
        out.append("out")


class CM:
    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return t is KeyError


def t_with():
    out = []
    with cm(out) as v:
        out.append(v)
    with cm(out):
        raise ValueError
    with suppress(KeyError, TypeError):
        {}["x"]
    with CM() as c, cm(out):
        out.append(isinstance(c, CM))
        {}["k"]
    return out


def t_comprehensions():
    m = [[1, 2], [3, 4]]
    return [x for r in m for x in r if x != 2], [[r[i] for r in m] for i in range(2)], {k: v for k, v in zip("ab", (1, 2))}, {x % 2 for x in range(5)}, list(zip(*m)), [(i, x) for i, x in enumerate("ab", 1)], list(map(str, [1, 2])), list(filter(None, [0, 1, 2])), any(x > 3 for r in m for x in r), all([]), list(reversed([1, 2])), list(zip([1, 2], [3, 4], strict=True)), [*range(3), *"ab"], {*()}, (*[1], 2), {**{"a": 1}}


def t_collections():
    d = defaultdict(list)
    d["a"].append(1)
    c = Counter("aab")
    q = deque([1, 2], maxlen=3)
    q.appendleft(0)
    q.append(3)
    o = OrderedDict(a=1, b=2)
    o.move_to_end("a")
    m = ChainMap({"a": 1}, {"a": 2, "b": 3})
    return dict(d), c["a"], c["z"], c.most_common(1), list(q), list(o), m["a"], m["b"], q.popleft(), dict(c)


def t_re():
    m = re.match(r"(\d+)(px|em)?$", "12px")
    return m.group(1), m.group(2), m.groups(), re.sub(r"\s+", " ", "a   b"), re.split(r"[,\s]+", "a, b c"), re.findall(r"\d", "a1b2"), bool(re.fullmatch("a+", "aaa")), re.compile("X", re.I).search("axb").start(), re.match("z", "a"), re.match(r"(?P<n>\d)", "5").groupdict(), m.span(), [x.group() for x in re.finditer("a.", "abac")], re.sub("(a)", r"<\1>", "bab"), re.sub("a", lambda m: m.group().upper(), "bab")


@total_ordering
class TO:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return self.v == o.v

    def __lt__(self, o):
        return self.v < o.v


def t_total_ordering():
    return TO(1) <= TO(1), TO(2) > TO(1), TO(1) >= TO(2), TO(1) != TO(2)


class CP:
    n = 0

    @cached_property
    def v(self):
        CP.n += 1
        return CP.n


def t_cached_property():
    c = CP()
    return c.v, c.v, CP.n


def t_fraction():
    f = Fraction(1, 3)
    return f + 1 == Fraction(4, 3), float(Fraction(1, 4))


def t_colorsys():
    return [round(x, 6) for x in colorsys.hls_to_rgb(0.1, 0.2, 0.3)]


def t_globals():
    return "t_globals" in globals(), sorted(k for k in locals()), type(3) is int, id(t_globals) == id(t_globals), isinstance(t_globals, type(t_re)), t_globals.__name__, __name__


def t_exec_order():
    out = []

    def f(x):
        out.append(x)
        return x
    f(1) if f(0) else f(2)
    f(3) and f(0) or f(4)
    (f("a"), f("b"))
    {f("k"): f("v")}
    f(5) < f(6) < f(2) < f(9)
    return out


def t_assert():
    try:
        assert 1 == 2, "msg"
    except AssertionError as e:
        return str(e)


def t_del():
    x = 1
    del x
    try:
        return x
    except UnboundLocalError as e:
        return "unbound"


def t_recursion():
    def depth(t):
        return 1 + max((depth(c) for c in t), default=0)
    return depth([[], [[]]])


def t_bytes():
    return b"ab"[0], b"a" + b"b", len(b"abc"), bytes([65]), b"a,b".split(b",")


def t_iter():
    it = iter([1, 2])
    out = [next(it), next(it)]
    try:
        next(it)
    except StopIteration:
        out.append("stop")
    return out, list(iter(lambda: out.pop(), 1))


class It:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        if self.n == 0:
            raise StopIteration
        self.n -= 1
        return self.n


def t_iterator_class():
    return list(It(3)), sum(It(4)), [x for x in It(2)], 1 in It(3), tuple(It(2)), sorted(It(3)), max(It(5))


class Mixin:
    def hi(self):
        return "m" + super().hi()


class Root:
    def hi(self):
        return "r"


class Both(Mixin, Root):
    def hi(self):
        return "b" + super().hi()


def t_mro():
    return Both().hi(), [c.__name__ for c in Both.__mro__]


class Exc(ValueError):
    def __init__(self, a, b):
        super().__init__(f"{a}-{b}")
        self.a = a


def t_exc_class():
    try:
        raise Exc(1, 2)
    except ValueError as e:
        return e.a, str(e), e.args, isinstance(e, Exc), repr(e)


def t_exc_group_by_type():
    out = []
    for e in (ValueError("a"), KeyError("b"), Exc(1, 2), TypeError()):
        try:
            raise e
        except (LookupError, Exc):
            out.append("LE")
        except Exception as x:
            out.append(type(x).__name__)
    return out


def t_type3():
    T = type("T", (Base,), {"kind": "dyn", "f": lambda self: self.x + 1})
    return T(4).f(), T(4).who(), T.__name__


def t_property_fn():
    class A:
        pass

    def g(self):
        return self.__dict__.get("v", 0)

    def s(self, v):
        self.__dict__["v"] = v
    A.v = property(g, s)
    a = A()
    a.v = 4
    setattr(A, "w", property(lambda self: 9))
    return a.v, a.w, isinstance(A.__dict__["v"], property), A.v.fget is g


def t_star_expr():
    def f(*a, **k):
        return a, k
    x = [1, 2]
    return f(*x, 3, **{"a": 1}, b=2), f(0, *x, *x)


def t_chained_compare_in():
    return 1 in [1] == [1], "a" not in "b", None is None is not 3, not (1 == 2)


def t_conditional_import():
    try:
        import nonexistent_module_xyz
    except ImportError:
        return "no"


def t_string_join_nested():
    return "; ".join(f"{k.replace('_', '-')}: {v}" for k, v in sorted({"b_c": 1, "a": 2}.items()))


def t_int_methods():
    return int.from_bytes(b"\x01\x00", "big"), (3).__add__(4), float(3).hex() if False else 0, 3 .real, (1.5).as_integer_ratio()


def t_inplace_ops():
    class V:
        def __init__(self, v):
            self.v = v

        def __iadd__(self, o):
            self.v += o
            return self

        def __mul__(self, o):
            return V(self.v * o)
        __rmul__ = __mul__

        def __truediv__(self, o):
            return V(self.v / o)

        def __abs__(self):
            return abs(self.v)

        def __round__(self, n=0):
            return round(self.v, n)

        def __int__(self):
            return int(self.v)

        def __float__(self):
            return float(self.v)

        def __index__(self):
            return int(self.v)

        def __format__(self, s):
            return "V" + s

        def __matmul__(self, o):
            return 7
    v = w = V(3)
    v += 4
    return w.v, (v * 2).v, (2 * v).v, (v / 2).v, abs(V(-2)), round(V(2.567), 1), int(V(2.5)), float(V(2)), [1, 2, 3][V(1)], f"{v:x}", v @ 1


def t_vars_mutation():
    b = Base(1)
    vars(b)["q"] = 5
    b.__dict__.update(z=6)
    return b.q, b.z, sorted(b.__dict__)


def t_copy():
    import copy
    a = [[1], 2]
    b, c = copy.copy(a), copy.deepcopy(a)
    a[0].append(9)
    return b, c


def t_complex_default():
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    return f(1), f(2)


def t_global():
    global G
    G = 5
    return G


def t_type_hints():
    def f(a: "int", b: Optional[int] = None) -> list[int]:
        x: int = 3
        y: dict[str, int] = {}
        return [a, x, y]
    return f(1)


def t_nonlocal_class():
    class A:
        vals = [i for i in range(3)]
        top = vals[-1]

        class Inner:
            z = 4
    return A.vals, A.top, A.Inner.z


def t_sort_stability():
    return sorted([("b", 1), ("a", 1), ("a", 0)], key=lambda t: t[1]), sorted("bca", reverse=True), sorted([3, 1], key=operator.neg), min([(2, "a"), (1, "z")]), min("abc", key=lambda c: -ord(c)), sorted({"x": 1, "a": 2})
