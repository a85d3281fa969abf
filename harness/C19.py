"""Quantities are values: arithmetic makes new ones, equality compares number and unit"""
import vp
from colosseum import units as u
from colosseum.parser import units

NAMES = ("px", "em", "ex", "ch", "inch", "cm", "mm", "pt", "pc", "vw", "vh", "vmin", "vmax", "percent")
ANGLES = ("deg", "rad", "grad", "turn")
SUFFIX = {"inch": "in", "percent": "%"}


def number(kind, name="n"):
    return vp.integer(name, -100000, 100000) if kind == "int" else vp.real(name, -100000, 100000)


def case_multiply(k):
    name, kind = k
    unit = getattr(u, name)
    n, m = number(kind, "n"), number(kind, "m")
    q = n * unit
    r = m * q
    vp.prove(q.val == n and q.suffix == SUFFIX.get(name, name) and type(q) is type(unit), "a multiple of a unit has the number and the unit (" + name + ")")
    vp.prove(r.val == m * n and r.suffix == q.suffix and type(r) is type(q), "a multiple of a quantity (" + name + ")")
    vp.prove(q.val == n and unit.val == 1 and unit.suffix == SUFFIX.get(name, name), "arithmetic doesn't change its operands (" + name + ")")
    o = -q
    vp.prove(o.val == -n and o.suffix == q.suffix and type(o) is type(q), "the opposite of a quantity (" + name + ")")
    vp.prove(q.val == n and unit.val == 1, "arithmetic doesn't change its operands (" + name + ")")
    vp.prove(-o == q, "the opposite of the opposite is the same (" + name + ")")
    if hasattr(unit, "scale"):
        vp.prove(q.scale is unit.scale or q.scale == unit.scale, "a multiple of a unit has the number and the unit (" + name + ")")
        vp.prove(o.scale is unit.scale or o.scale == unit.scale, "the opposite of a quantity (" + name + ")")


case_multiply.over = [(n, k) for n in NAMES + ANGLES for k in ("int", "real")]


def case_equal(k):
    a, b = k
    n, m = vp.integer("n", -1000, 1000), vp.integer("m", -1000, 1000)
    p, q = n * getattr(u, a), m * getattr(u, b)
    want = a == b and n == m
    vp.prove((p == q) is want, "quantities are equal if number and unit are (" + a + ")")
    vp.prove((q == p) is want, "quantities are equal if number and unit are (" + a + ")")
    vp.prove((p != q) is (not want), "quantities are equal if number and unit are (" + a + ")")


case_equal.over = [(a, b) for a in NAMES + ANGLES for b in NAMES + ANGLES]


def case_equal_number(name):
    """only pixels equal their number"""
    n, m = vp.integer("n", -1000, 1000), vp.integer("m", -1000, 1000)
    q = n * getattr(u, name)
    vp.prove((q == m) is (name == "px" and n == m), "only pixels are equal to a number (" + name + ")")
    for other in (None, "auto", "5px", [], object()):
        vp.prove((q == other) is False and q != other, "a quantity isn't equal to something else (" + name + ")")


case_equal_number.over = NAMES + ANGLES


def case_equal_real(k):
    """numbers that aren't whole"""
    a, b = k
    x, y, n = vp.real("x", -1000, 1000), vp.real("y", -1000, 1000), vp.integer("n", -1000, 1000)
    p, q, r = x * getattr(u, a), y * getattr(u, b), n * getattr(u, b)
    vp.prove((p == q) is (a == b and x == y) and (p != q) is not (a == b and x == y), "quantities are equal if number and unit are (" + a + ")")
    vp.prove((p == r) is (a == b and x == n) and (r == p) is (a == b and x == n), "quantities are equal if number and unit are (" + a + ")")
    vp.prove((p == n) is (a == "px" and x == n), "only pixels are equal to a number (" + a + ")")


case_equal_real.over = [(a, b) for a in NAMES + ANGLES for b in (a, "px", "em", "deg")]


def case_text(k):
    """the text of a quantity is its number and unit, and gives the quantity again"""
    name, kind = k
    n = vp.integer("n", -10000000, 10000000) if kind == "int" else vp.real("n", -10000000, 10000000)
    q = n * getattr(u, name)
    suffix = SUFFIX.get(name, name)
    vp.prove(str(q) == repr(q), "the text of a quantity (" + name + ")")
    if kind == "int":
        vp.prove(str(q) == str(n) + suffix, "the text of a quantity (" + name + ")")
    if name in NAMES:
        r = units(str(q))
        vp.prove(r == q and r.val == n, "the text of a quantity gives the quantity again (" + name + ")")


case_text.over = [(n, k) for n in NAMES + ANGLES for k in ("int", "real")]


def case_constants(name):
    """every unit is available, and is 1 of itself"""
    unit = getattr(u, name)
    vp.prove(unit.val == 1 and str(unit) == "1" + SUFFIX.get(name, name), "a unit is 1 of itself (" + name + ")")
    vp.prove(isinstance(unit, u.Unit) is (name in NAMES), "lengths and angles are different (" + name + ")")
    vp.prove(name in u.__all__, "every unit is exported")


case_constants.over = NAMES + ANGLES
