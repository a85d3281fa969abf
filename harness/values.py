"""Valid values of every kind, as a user writes them"""
import vp
from colosseum import units
from colosseum.colors import hsl, rgb
from colosseum.shapes import Rect
from colosseum.wrappers import BorderSpacing, Cursor, Quotes, Uri
from spec.grammar import NAMES, P

UNITS = ("px", "em", "ex", "ch", "inch", "cm", "mm", "pt", "pc", "vw", "vh", "vmin", "vmax", "percent")
SUFFIX = {"inch": "in", "percent": "%"}


def length(tag=""):
    form = vp.choose("form" + tag, "int", "float", "unit", "text", "bare", "percent", "real")
    v = vp.integer("v" + tag, -500, 500)
    if form == "int":
        return v
    if form == "float":
        return vp.real("x" + tag, -500, 500)
    if form == "unit":
        return v * getattr(units, vp.choose("unit" + tag, "px", "em", "cm", "vh"))
    if form == "text":
        u = vp.choose("unit" + tag, "px", "em", "cm", "vh")
        return str(v) + SUFFIX.get(u, u)
    if form == "percent":
        return str(v) + "%"
    if form == "real":
        return vp.numlit(vp.real("x" + tag, -500, 500)) + "mm"
    return str(v)


def color(tag=""):
    form = vp.choose("color" + tag, "rgb", "hsl", "text", "rgba", "hslt", "name", "hex")
    r, g, b = vp.integer("r" + tag, 0, 255), vp.integer("g" + tag, 0, 255), vp.integer("b" + tag, 0, 255)
    if form == "rgb":
        return rgb(r, g, b)
    if form == "hsl":
        return hsl(r, 0.5, 0.25)
    if form == "text":
        return "rgb(" + str(r) + "," + str(g) + ", " + str(b) + ")"
    if form == "rgba":
        return "rgba(" + str(r) + "," + str(g) + ", " + str(b) + ", 0.5)"
    if form == "hslt":
        return "hsl(" + str(r) + ", 30%, 40%)"
    if form == "name":
        return vp.choose("colorname" + tag, "red", "REBECCAPURPLE", "LightGoldenRodYellow")
    d = vp.hexdigit("d" + tag)[0]
    return "#" + d + "0F"


def value(name, tag=""):
    """any value of a property that isn't a keyword"""
    kind = P[name][1]
    if kind == "length":
        return length(tag)
    if kind == "color":
        return color(tag)
    if kind == "integer":
        return vp.choose("form" + tag, vp.integer("v" + tag, -500, 500), str(vp.integer("v" + tag, -500, 500)))
    v = vp.integer("v" + tag, 0, 500)
    if kind == "rect":
        return vp.choose("form" + tag, "rect(1px, " + str(v) + "em, 3cm, 4px)", Rect(v * units.px, v * units.px, 2 * units.px, 3 * units.px), "rect(1 2 3 " + str(v) + ")")
    if kind == "quotes":
        return vp.choose("form" + tag, "'<' '>'", [("<", ">"), ("{", "}")], (("a", "b"),), Quotes([("'", '"')]))
    if kind == "border-spacing":
        return vp.choose("form" + tag, v, str(v) + "em", "1px " + str(v) + "px", (v,), [v, "3em"], BorderSpacing(v * units.px), BorderSpacing(1 * units.px, v * units.pt))
    if kind == "cursor":
        return vp.choose("form" + tag, "auto", "url(a.png), help", ["url('b.png')", "text"], Cursor([Uri("x")]), Cursor(["wait"]), ("pointer",))


def any_value(name, tag=""):
    """any value of a property"""
    options = P[name][0] + (("*",) if P[name][1] else ())
    k = vp.choose("keyword" + tag, options)
    if k == "*":
        return value(name, tag)
    return k


CANONICAL = {"length": (units.Unit,), "color": (rgb, hsl), "integer": (int,), "rect": (Rect,), "quotes": (Quotes,), "border-spacing": (BorderSpacing,), "cursor": (Cursor,)}


def equal(a, b):
    """equal, component by component (colours and border spacings have no equality of their own)"""
    if isinstance(a, rgb):
        return isinstance(b, rgb) and a.r == b.r and a.g == b.g and a.b == b.b and a.a == b.a
    if isinstance(a, hsl):
        return isinstance(b, hsl) and a.h == b.h and a.s == b.s and a.l == b.l and a.a == b.a
    if isinstance(a, BorderSpacing):
        return isinstance(b, BorderSpacing) and a.horizontal == b.horizontal and a.vertical == b.vertical
    if isinstance(a, Uri):
        return isinstance(b, Uri) and a.url == b.url
    if isinstance(a, Cursor):
        return isinstance(b, Cursor) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


def snapshot(style):
    """everything that a style reports"""
    values = {name: getattr(style, name) for name in NAMES}
    return set(style.keys()), values


def unchanged(style, old):
    return set(style.keys()) == old[0] and all(identical(old[1][name], getattr(style, name)) or equal(old[1][name], getattr(style, name)) for name in NAMES)


def identical(a, b):
    """the same object (numbers: equal)"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return a is b
