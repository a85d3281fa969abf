"""Numeric abstract domain: polynomial normal forms over hash-consed atoms, with a
sign/polyhedral constraint store.

A numeric abstract value is a polynomial with rational coefficients over *atoms*.  An
atom is an unknown input quantity, or an application of a non-polynomial operation
(floor division, rounding, ...) to polynomials.  Two expressions with the same normal
form denote the same function of the inputs, so equality is decided by construction.

Constraints are kept per normalised polynomial as a set of admitted signs.  Emptiness
of a partition is decided by Fourier-Motzkin elimination (convex polyhedra domain),
monomials being treated as independent dimensions.
"""
from fractions import Fraction
import math
import random

F0 = Fraction(0)
F1 = Fraction(1)

NEG, ZERO, POS = -1, 0, 1
ALL = frozenset((-1, 0, 1))


def frac(v):
    if type(v) is Fraction:
        return v
    if type(v) is bool:
        return Fraction(int(v))
    if type(v) is int:
        return Fraction(v)
    return Fraction(repr(v))


class Atom:
    __slots__ = ("key", "name", "ty", "kind", "args", "_h", "order")
    table = {}
    counter = 0

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return "%s(%s)" % (self.kind, ", ".join(map(str, self.args)))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.order < o.order


def atom(kind, name, ty, args=()):
    key = (kind, name, args, ty)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.key = key
        a.kind, a.name, a.ty, a.args = kind, name, ty, args
        a._h = hash(key)
        Atom.counter += 1
        a.order = Atom.counter
        Atom.table[key] = a
    return a


class Poly:
    """Immutable polynomial: tuple of ((monomial, coeff), ...) sorted.
    monomial = tuple of atoms (with repetition), sorted by order."""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = hash(t)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.t:
            ms = "*".join(map(repr, m))
            if not ms:
                s = _fs(c)
            elif c == 1:
                s = ms
            elif c == -1:
                s = "-" + ms
            else:
                s = _fs(c) + "*" + ms
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")

    def const(self):
        """The constant value, or None"""
        if not self.t:
            return F0
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    def atoms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s


def _fs(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    if Fraction(repr(f)) == c:
        return repr(f)
    return "(%s)" % c


def _mk(d):
    t = tuple(sorted(((m, c) for m, c in d.items() if c), key=_mkey))
    return Poly(t)


def _mkey(mc):
    return (len(mc[0]), tuple(a.order for a in mc[0]))


PZERO = Poly(())


def pconst(v):
    v = frac(v)
    return Poly((((), v),)) if v else PZERO


def patom(a):
    return Poly((((a,), F1),))


def padd(p, q, k=F1):
    if not q.t:
        return p
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, F0) + c * k
    return _mk(d)


def psub(p, q):
    return padd(p, q, -F1)


def pscale(p, k):
    if not k:
        return PZERO
    if k == 1:
        return p
    return Poly(tuple((m, c * k) for m, c in p.t))


def pmul(p, q):
    c = p.const()
    if c is not None:
        return pscale(q, c)
    c = q.const()
    if c is not None:
        return pscale(p, c)
    d = {}
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            m = tuple(sorted(m1 + m2, key=lambda a: a.order))
            d[m] = d.get(m, F0) + c1 * c2
    return _mk(_reduce_inv(d))


def _reduce_inv(d):
    """x * inv(x) = 1 for single-atom inverses"""
    out = {}
    for m, c in d.items():
        invs = [a for a in m if a.kind == "inv"]
        if invs:
            ml = list(m)
            for a in invs:
                p = a.args[0]
                if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == 1 and p.t[0][0][0] in ml:
                    ml.remove(a)
                    ml.remove(p.t[0][0][0])
            m = tuple(ml)
        out[m] = out.get(m, F0) + c
    return out


def pneg(p):
    return pscale(p, -F1)


def integral(p):
    """Is p integer-valued, whatever the inputs?"""
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a in m:
            if a.ty != "int":
                return False
    return True


def normal(p):
    """(q, s): q canonical positive multiple with leading coefficient > 0; sign(p)=s*sign(q)"""
    lead = p.t[-1][1]
    k = abs(lead)
    s = 1 if lead > 0 else -1
    if k == 1 and s == 1:
        return p, 1
    return pscale(p, F1 / lead), s


def ev_poly(p, val):
    r = F0
    for m, c in p.t:
        x = c
        for a in m:
            x = x * ev_atom(a, val)
        r += x
    return r


class Undef(Exception):
    pass


def ev_atom(a, val):
    v = val.get(a)
    if v is not None:
        return v
    k = a.kind
    if k == "var":
        raise Undef(a)
    xs = [ev_poly(p, val) for p in a.args]
    if k == "floor":
        r = Fraction(math.floor(xs[0]))
    elif k == "round":
        r = Fraction(round(xs[0]))
    elif k == "trunc":
        r = Fraction(math.trunc(xs[0]))
    elif k == "inv":
        if xs[0] == 0:
            raise Undef(a)
        r = F1 / xs[0]
    elif k == "floordiv":
        if xs[1] == 0:
            raise Undef(a)
        r = Fraction(xs[0] // xs[1])
    elif k == "pow":
        try:
            r = frac(float(xs[0]) ** float(xs[1]))
        except Exception:
            raise Undef(a)
    else:
        f = FUNCS.get(k)
        if f is None:
            raise Undef(a)
        try:
            r = frac(f(*[float(x) for x in xs]))
        except Exception:
            raise Undef(a)
    val[a] = r
    return r


FUNCS = {
    "roundn": lambda x, n: round(x, int(n)),
    "sqrt": lambda x: math.sqrt(x),
}


def base_atoms(polys):
    seen = set()
    out = []
    stack = list(polys)
    while stack:
        p = stack.pop()
        for a in p.atoms():
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "var":
                out.append(a)
            else:
                stack.extend(a.args)
    out.sort(key=lambda a: a.order)
    return out


# --------------------------------------------------------------------------
# Emptiness: Fourier-Motzkin over monomials
# --------------------------------------------------------------------------
_feas_cache = {}


def axioms(polys):
    """Constraints that hold for the derived atoms in polys: list of (poly, rel)"""
    out = []
    seen = set()
    stack = list(polys)
    while stack:
        p = stack.pop()
        for a in p.atoms():
            if a in seen:
                continue
            seen.add(a)
            if a.kind in ("floor", "trunc", "round"):
                x = a.args[0]
                stack.append(x)
                d = psub(x, patom(a))
                if a.kind == "floor":
                    out.append((d, ">="))
                    out.append((psub(pconst(1), d), ">"))
                elif a.kind == "round":
                    h = pconst(Fraction(1, 2))
                    out.append((padd(d, h), ">="))
                    out.append((psub(h, d), ">="))
                else:
                    out.append((padd(d, pconst(1)), ">"))
                    out.append((psub(pconst(1), d), ">"))
    return out


def feasible(signs):
    """signs: dict poly->frozenset of signs.  False only if certainly empty."""
    key = frozenset(signs.items())
    r = _feas_cache.get(key)
    if r is None:
        r = _feasible(signs)
        if len(_feas_cache) > 200000:
            _feas_cache.clear()
        _feas_cache[key] = r
    return r


def _cons(signs):
    cons = []
    disj = []
    for p, s in signs.items():
        if s == frozenset((0,)):
            cons.append((p, "="))
        elif s == frozenset((1,)):
            cons.append((p, ">"))
        elif s == frozenset((0, 1)):
            cons.append((p, ">="))
        elif s == frozenset((-1,)):
            cons.append((pneg(p), ">"))
        elif s == frozenset((-1, 0)):
            cons.append((pneg(p), ">="))
        elif s == frozenset((-1, 1)):
            disj.append(p)
        elif not s:
            return None, None
    return cons, disj


def _feasible(signs):
    cons, disj = _cons(signs)
    if cons is None:
        return False
    cons = cons + axioms([p for p, _ in cons] + disj)
    if not fm(cons):
        return False
    for p in disj:
        if not fm(cons + [(p, ">")]) and not fm(cons + [(pneg(p), ">")]):
            return False
    return True


def _tighten(p, rel):
    """integer tightening: p > 0 with integral p  ->  p - 1 >= 0"""
    if rel == ">":
        # scale to integer coefficients
        den = 1
        for m, c in p.t:
            den = den * c.denominator // math.gcd(den, c.denominator)
        q = pscale(p, Fraction(den))
        if integral(q):
            g = 0
            for m, c in q.t:
                if m:
                    g = math.gcd(g, abs(c.numerator))
            q = psub(q, pconst(1))
            if g > 1:
                cc = dict(q.t).get((), F0)
                q = padd(q, pconst(-cc))
                q = pscale(q, Fraction(1, g))
                q = padd(q, pconst(math.floor(cc / g)))
            return q, ">="
    return p, rel


def fm(cons, limit=600):
    """True if the conjunction may be satisfiable"""
    rows = []
    eqs = []
    for p, rel in cons:
        p, rel = _tighten(p, rel)
        d = dict(p.t)
        b = d.pop((), F0)
        if not d:
            if rel == "=" and b != 0 or rel == ">" and b <= 0 or rel == ">=" and b < 0:
                return False
            continue
        (eqs if rel == "=" else rows).append((d, b, rel))
    # eliminate equalities
    while eqs:
        d, b, _ = eqs.pop()
        if not d:
            if b != 0:
                return False
            continue
        v = min(d, key=lambda m: (len(m), -m[0].order if m else 0))
        c = d[v]
        sub = {m: -x / c for m, x in d.items() if m != v}
        sb = -b / c

        def apply(row):
            rd, rb, rel = row
            k = rd.get(v)
            if not k:
                return row
            nd = {m: x for m, x in rd.items() if m != v}
            for m, x in sub.items():
                y = nd.get(m, F0) + k * x
                if y:
                    nd[m] = y
                else:
                    nd.pop(m, None)
            return nd, rb + k * sb, rel

        eqs = [apply(r) for r in eqs]
        rows = [apply(r) for r in rows]
    # inequalities
    rows2 = {}

    def push(d, b, rel):
        if not d:
            return not (b < 0 or (rel == ">" and b == 0))
        lead = max(d, key=lambda m: tuple(a.order for a in m))
        k = abs(d[lead])
        key = tuple(sorted(((tuple(a.order for a in m), x / k) for m, x in d.items())))
        b = b / k
        old = rows2.get(key)
        if old is None or b < old[1] or (b == old[1] and rel == ">"):
            rows2[key] = ({m: x / k for m, x in d.items()}, b, rel)
        return True

    for d, b, rel in rows:
        if not push(d, b, rel):
            return False
    while rows2:
        cur = list(rows2.values())
        cnt = {}
        for d, b, rel in cur:
            for m, x in d.items():
                c = cnt.setdefault(m, [0, 0])
                c[0 if x > 0 else 1] += 1
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        pos = [r for r in cur if r[0].get(v, 0) > 0]
        neg = [r for r in cur if r[0].get(v, 0) < 0]
        rest = [r for r in cur if not r[0].get(v)]
        rows2.clear()
        for r in rest:
            push(*r)
        if len(pos) * len(neg) + len(rest) > limit:
            return True
        for d1, b1, r1 in pos:
            k1 = d1[v]
            for d2, b2, r2 in neg:
                k2 = -d2[v]
                nd = {}
                for m, x in d1.items():
                    if m != v:
                        nd[m] = x * k2
                for m, x in d2.items():
                    if m != v:
                        y = nd.get(m, F0) + x * k1
                        if y:
                            nd[m] = y
                        else:
                            nd.pop(m, None)
                rel = ">" if ">" in (r1, r2) and (r1 == ">" or r2 == ">") else ">="
                if not push(nd, b1 * k2 + b2 * k1, rel):
                    return False
    return True


# --------------------------------------------------------------------------
# Concretisation of a partition (the witness of a report)
# --------------------------------------------------------------------------
POOL_INT = [0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 20, 37, 50, 64, 100, 101, 150, 200, 255, 300, 301, 480, 640, 1000, -1, -2, -5, -10, -100]


def witness(signs, ranges=None, rng=None, tries=3000, extra_atoms=(), fixed=None, wide=False):
    """A valuation of the base atoms under which every constraint holds, or None"""
    rng = rng or random.Random(1)
    polys = list(signs)
    bases = base_atoms(polys)
    for a in extra_atoms:
        if a not in bases:
            bases.append(a)
    # equalities linear in base atoms: solve for a dependent atom
    eqs = [p for p, s in signs.items() if s == frozenset((0,))]
    dep = {}
    order = []
    pending = list(eqs)
    changed = True
    while changed and pending:
        changed = False
        for p in list(pending):
            q = subst(p, dep)
            cand = None
            cnt = {}
            for m, c in q.t:
                for a in m:
                    cnt[a] = cnt.get(a, 0) + 1
            inner = set()
            for a in q.atoms():
                if a.kind != "var":
                    inner.update(base_atoms(a.args))
            for m, c in q.t:
                if len(m) == 1 and m[0].kind == "var" and cnt[m[0]] == 1 and m[0] not in inner:
                    # prefer real atoms, then the latest
                    if cand is None or (m[0].ty != "int", m[0].order) > (cand[0].ty != "int", cand[0].order):
                        cand = (m[0], c)
            if cand is not None:
                a, c = cand
                rest = _mk({m: x for m, x in q.t if m != (a,)})
                e = pscale(rest, -F1 / c)
                dep = {k: subst(v, {a: e}) for k, v in dep.items()}
                dep[a] = e
                pending.remove(p)
                changed = True
            elif not q.t:
                pending.remove(p)
                changed = True
    free = [a for a in bases if a not in dep]
    items = list(signs.items())
    for t in range(tries):
        val = dict(fixed) if fixed else {}
        scale = rng.choice((1, 3, 10, 100, 1000))
        zeroish = rng.random() < 0.5
        for a in free:
            if a in val:
                continue
            r = rng.random()
            if zeroish and r < 0.3:
                x = Fraction(0)
            elif r < 0.6:
                x = Fraction(rng.choice(POOL_INT))
            else:
                x = Fraction(rng.randint(-scale, scale) if rng.random() < 0.4 else rng.randint(0, scale))
            if a.ty != "int" and rng.random() < 0.35:
                x += Fraction(rng.choice((1, 2, 3, 5, 7)), 8)
            if ranges and a in ranges:
                lo, hi = ranges[a]
                if not (lo <= x <= hi) or (wide and hi - lo > 1000):
                    x = (Fraction(rng.randint(0, 1 << 30), 1 << 30) if wide else Fraction(rng.randint(0, 1000), 1000)) * (hi - lo) + lo
                    if a.ty == "int":
                        x = Fraction(math.floor(x))
            val[a] = x
        try:
            ok = True
            for a, e in dep.items():
                if a in val:
                    continue
                x = ev_poly(e, val)
                if a.ty == "int" and x.denominator != 1:
                    ok = False
                    break
                if ranges and a in ranges and not (ranges[a][0] <= x <= ranges[a][1]):
                    ok = False
                    break
                val[a] = x
            if not ok:
                continue
            for p, s in items:
                x = ev_poly(p, val)
                sg = 0 if x == 0 else (1 if x > 0 else -1)
                if sg not in s:
                    ok = False
                    break
            if ok:
                return {a: val[a] for a in bases if a in val}
        except Undef:
            continue
    return None


def subst(p, m):
    if not m or not any(a in m for a in p.atoms()):
        return p
    r = PZERO
    for mono, c in p.t:
        x = pconst(c)
        for a in mono:
            x = pmul(x, m.get(a) or patom(a)) if a not in m else pmul(x, m[a])
        r = padd(r, x)
    return r
