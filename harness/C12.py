"""Lengths are read as written"""
import vp
from colosseum import units as u
from colosseum.parser import units
from colosseum.validators import is_length, is_percentage

TABLE = (("px", u.px), ("em", u.em), ("ex", u.ex), ("ch", u.ch), ("in", u.inch), ("cm", u.cm), ("mm", u.mm), ("pt", u.pt), ("pc", u.pc), ("vw", u.vw), ("vh", u.vh),
         ("vmin", u.vmin), ("vmax", u.vmax), ("%", u.percent))


def number(kind):
    return vp.integer("n", -100000, 100000) if kind == "int" else vp.real("x", -100000, 100000)


def is_quantity(got, n, unit, label):
    """got is n times the unit, which itself is unaffected"""
    vp.prove(type(got) is type(unit) and got.suffix == unit.suffix, label, at=vp.site(got, "suffix"))
    vp.prove(got.val == n, label, at=vp.site(got, "val"))
    vp.prove(got == n * unit, label)
    vp.prove(got is not unit and unit.val == 1, "reading a length doesn't change the unit")


def case_text(k):
    (suffix, unit), kind, form = k
    n = number(kind)
    text = vp.numlit(n)
    if form == "plus":
        vp.assume(n >= 0)
        text = "+" + text
    elif form == "minus":
        vp.assume(n >= 0)
        text = "-" + text
        n = -n
    elif form == "blank":
        text = " " + text + " "
    is_quantity(units(text + suffix), n, unit, "a number with a unit is that many of it (" + suffix + ")")
    is_quantity(is_length(text + suffix), n, unit, "a number with a unit is that many of it (" + suffix + ")")


case_text.over = [(t, kind, f) for t in TABLE for kind, f in (("int", ""), ("real", ""), ("int", "plus"), ("int", "minus"), ("int", "blank"))]


def case_number(k):
    n = number(k)
    is_quantity(units(n), n, u.px, "a number is a length in pixels")
    is_quantity(units(vp.numlit(n)), n, u.px, "a number is a length in pixels")
    is_quantity(units(" " + vp.numlit(n) + " "), n, u.px, "a number is a length in pixels")


case_number.over = ("int", "real")


def case_unit(k):
    """a length that is already parsed is taken as it is"""
    suffix, unit = k
    q = number("real") * unit
    vp.prove(units(q) is q and is_length(q) is q, "a length that is already parsed is taken as it is (" + suffix + ")")
    vp.prove(units(unit) is unit, "a length that is already parsed is taken as it is (" + suffix + ")")


case_unit.over = TABLE


def refuses(fn, value, label):
    try:
        fn(value)
    except ValueError:
        vp.prove(True, label)
        return
    vp.prove(False, label)


ODD = ("PX", "Px", "deg", "rad", "grad", "turn", "p", "x", "pxx", "px px", "px;", "rem", "q", "%%", "vminx", "s", "dpi", "fr", "in.", ",", "px,", "0x", "pxpx", "empx", "%px", "px%")


def case_odd(k):
    """units that don't exist, and angles"""
    suffix, kind = k
    refuses(units, vp.numlit(number(kind)) + suffix, "other units are refused")
    refuses(is_length, vp.numlit(number(kind)) + suffix, "other units are refused")


case_odd.over = [(s, kind) for s in ODD for kind in ("int", "real")]


def case_any(k):
    """no number in front of the unit: any word without digits"""
    w = vp.word("w", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-+.,;()#'", 0)
    refuses(units, w + k, "what isn't a number with a unit is refused")


case_any.over = [s for s, x in TABLE] + [""]


def case_unknown_unit():
    """a number with any word that isn't a unit"""
    w = vp.word("w", "abdfgijklopqrsuyzABCDFGHIJKLMNOPQRSTUVWXYZ#;,", 1)
    refuses(units, vp.numlit(number("int")) + w, "other units are refused")


def case_objects(value):
    refuses(units, value, "other objects aren't lengths")


case_objects.over = [None, [], (), (1,), [1], {}, {"a": 1}, object(), b"1px", 1j, u.deg, 3 * u.turn, units, u, set()]


def case_percentage(k):
    n = number(k)
    for value in (vp.numlit(n) + "%", n * u.percent):
        if n >= 0:
            is_quantity(is_percentage(value), n, u.percent, "a percentage is accepted if it isn't negative")
        else:
            refuses(is_percentage, value, "a negative percentage is refused")
    refuses(is_percentage, vp.numlit(n) + "px", "a length isn't a percentage")
    refuses(is_percentage, n, "a number isn't a percentage")


case_percentage.over = ("int", "real")


def case_history(k):
    """what was read before doesn't matter"""
    (sa, ua), (sb, ub) = k
    n, m = vp.integer("n", -1000, 1000), vp.integer("m", -1000, 1000)
    a = units(str(n) + sa)
    b = units(str(m) + sb)
    refuses(units, str(n) + sa + sb, "two units are refused")
    c = units(str(n) + sa)
    is_quantity(b, m, ub, "a length is the same whatever was read before")
    is_quantity(c, n, ua, "a length is the same whatever was read before")
    vp.prove(a.val == n and a.suffix == ua.suffix, "reading a length doesn't change the ones that were read before")


case_history.over = [(a, b) for a in TABLE for b in TABLE]
