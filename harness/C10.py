"""Every property accepts the values of its grammar, in all their forms, and refuses everything else"""
import vp
from colosseum import units
from colosseum.colors import NAMED_COLOR, hsl, rgb
from colosseum.shapes import Rect
from colosseum.wrappers import BorderSpacing, Cursor, Quotes, Uri
from spec.common import CSS, node
from spec.grammar import CURSORS, DYNAMIC, NAMES, P, UNSPECIFIED, keyword_value


def put(style, name, value):
    """did the style accept the value?"""
    try:
        setattr(style, name, value)
    except ValueError:
        return False
    return True


def case_keywords(name):
    for k in P[name][0]:
        n = node()
        ok = put(n.style, name, vp.fresh(k))
        vp.prove(ok, "the keywords of a property are accepted (" + name + ")")
        want = keyword_value(k)
        got = getattr(n.style, name)
        if name == "cursor" and ok and isinstance(got, Cursor):
            got = str(got)
        vp.prove(got == want, "a keyword is reported as it was set (" + name + ")", at=vp.site(n.style, "_" + name))
        if ok and k == "none" and name != "quotes":
            vp.prove(put(n.style, name, None) and getattr(n.style, name) is None, "none and None are the same (" + name + ")")


case_keywords.over = NAMES


def case_other_words(name):
    """any word that isn't a keyword"""
    keywords, kind, initial = P[name]
    w = vp.word("w", "abcdefghijklmnopqrstuvwxyz-", 1)
    for k in keywords:
        vp.assume(w != k)
    if kind == "color":
        # colour names are another matter: any word with a hyphen isn't one
        w = w + "-x"
    if kind == "cursor":
        w = "x" + w + "q"
    n = node()
    n.style.dirty = False
    old = getattr(n.style, name)
    ok = put(n.style, name, w)
    vp.prove(not ok, "other words are refused (" + name + ")")
    vp.prove(getattr(n.style, name) is old and n.style.dirty is False, "a refused value changes nothing (" + name + ")")


case_other_words.over = NAMES

WORDS = tuple(sorted(set(k for name in NAMES for k in P[name][0]))) + ("Auto", "AUTO", "auto;", "auto !important", "-auto", "initial", "unset", "revert", "block block", "None")


def case_foreign(name):
    """keywords of other properties, and other spellings"""
    keywords, kind, initial = P[name]
    for w in WORDS:
        if w in keywords or (kind == "cursor" and w in CURSORS):
            continue
        s = CSS()
        old = getattr(s, name)
        ok = put(s, name, w)
        vp.prove(not ok and getattr(s, name) is old, "the keywords of other properties are refused (" + name + ")")


case_foreign.over = NAMES


def case_initial(name):
    initial = P[name][2]
    s = CSS()
    got = getattr(s, name)
    if initial is UNSPECIFIED:
        vp.prove(not isinstance(got, (str, rgb, hsl)) and got is not None, "the initial value (" + name + ")")
    elif initial is DYNAMIC:
        if name == "text_align":
            vp.prove(got == "left", "the initial value (" + name + ")")
            s.direction = "rtl"
            vp.prove(getattr(s, name) == "right", "the initial value (" + name + ")")
        else:
            vp.prove(got is s.color, "the initial value (" + name + ")")
            s.color = "red"
            vp.prove(getattr(s, name) is s.color, "the initial value (" + name + ")")
    elif name == "border_spacing":
        vp.prove(isinstance(got, BorderSpacing) and got.horizontal == 0 and got.vertical == 0, "the initial value (" + name + ")")
    elif name == "cursor":
        vp.prove(isinstance(got, Cursor) and len(got) == 1 and got[0] == "auto", "the initial value (" + name + ")")
    else:
        vp.prove(got == initial, "the initial value (" + name + ")")
    vp.prove(len(s.items()) == 0 or name in ("text_align",) or initial is DYNAMIC, "the initial value isn't specified")


case_initial.over = NAMES


UNITS = (("px", "px"), ("em", "em"), ("ex", "ex"), ("ch", "ch"), ("in", "inch"), ("cm", "cm"), ("mm", "mm"), ("pt", "pt"), ("pc", "pc"), ("vw", "vw"), ("vh", "vh"),
         ("vmin", "vmin"), ("vmax", "vmax"), ("%", "percent"))


def case_kinds(name):
    """values other than keywords"""
    keywords, kind, initial = P[name]
    n = node()
    s = n.style
    v = vp.integer("v", -500, 500)
    form = vp.choose("form", "int", "float", "unit", "text", "bare")
    if form == "int":
        value = v
    elif form == "float":
        value = vp.real("x", -500, 500)
    elif form == "unit":
        value = v * units.em
    elif form == "text":
        value = str(v) + "pt"
    else:
        value = str(v)
    ok = put(s, name, value)
    if kind == "length":
        vp.prove(ok, "lengths are accepted (" + name + ")")
        got = getattr(s, name)
        if form == "unit":
            vp.prove(got == value, "a length is reported as it was set (" + name + ")", at=vp.site(s, "_" + name))
        elif form == "text":
            vp.prove(got == v * units.pt, "a length is reported as it was set (" + name + ")", at=vp.site(s, "_" + name))
        elif form == "bare" or form == "int":
            vp.prove(got == v * units.px, "a number is a length in pixels (" + name + ")", at=vp.site(s, "_" + name))
        else:
            vp.prove(got == value * units.px, "a number is a length in pixels (" + name + ")", at=vp.site(s, "_" + name))
    elif kind == "border-spacing":
        vp.prove(ok or form == "unit", "a length is a border spacing (" + name + ")")
    elif kind == "integer":
        if form in ("int", "bare"):
            vp.prove(ok and getattr(s, name) == v, "integers are accepted (" + name + ")", at=vp.site(s, "_" + name))
        elif form in ("text", "unit"):
            vp.prove(not ok, "lengths are refused (" + name + ")")
    else:
        vp.prove(not ok, "lengths and numbers are refused (" + name + ")")


case_kinds.over = NAMES


def case_units(k):
    """every unit of length, in a property with a length"""
    name, (suffix, unit) = k
    s = CSS()
    v = vp.integer("v", -500, 500)
    u = getattr(units, unit)
    vp.prove(put(s, name, str(v) + suffix) and getattr(s, name) == v * u, "a length is reported as it was set (" + name + ")")


case_units.over = [(n, u) for n in NAMES if P[n][1] == "length" for u in UNITS]


def case_colors(name):
    r, g, b = vp.integer("r", 0, 255), vp.integer("g", 0, 255), vp.integer("b", 0, 255)
    form = vp.choose("form", "rgb", "hsl", "text", "name", "hex")
    value = {"rgb": rgb(r, g, b), "hsl": hsl(r, 0.5, 0.5), "text": "rgb(" + str(r) + ", " + str(g) + ", " + str(b) + ")", "name": "Red", "hex": "#f00"}[form]
    s = CSS()
    ok = put(s, name, value)
    if P[name][1] == "color":
        vp.prove(ok, "colours are accepted (" + name + ")")
        got = getattr(s, name)
        if form in ("rgb", "hsl"):
            vp.prove(got is value, "a colour is reported as it was set (" + name + ")")
        elif form == "text":
            vp.prove(got.r == r and got.g == g and got.b == b, "a colour is reported as it was set (" + name + ")")
        else:
            vp.prove(got.r == 255 and got.g == 0 and got.b == 0, "a colour is reported as it was set (" + name + ")")
    else:
        vp.prove(not ok, "colours are refused (" + name + ")")


case_colors.over = NAMES


def case_odd(name):
    """values of no property at all"""
    for value in (object(), CSS(), {}, {"a": 1}, b"auto", lambda: 1, CSS, 1j, float("nan") if False else (), [], [None], (1, 2, 3, 4, 5), "", " ", "auto auto", ("auto", "none", "x")):
        s = CSS()
        old = getattr(s, name)
        ok = put(s, name, value)
        if name == "cursor" and isinstance(value, (tuple, list)) and len(value) == 0:
            continue
        vp.prove(not ok and getattr(s, name) is old, "other objects are refused (" + name + ")")


case_odd.over = NAMES
