"""The border and outline shorthands"""
import vp
from colosseum.wrappers import Border, BorderBottom, BorderLeft, BorderRight, BorderTop, Outline
from spec.common import CSS, Node, node
from spec.grammar import DIRECTIONAL, NAMES, P, SHORTHAND, SIDES
from spec.lazy import EVERY, busy, opened
from spec.values import any_value, equal, snapshot, unchanged

WRAPPER = {"border_top": BorderTop, "border_right": BorderRight, "border_bottom": BorderBottom, "border_left": BorderLeft, "outline": Outline}
LONG = sorted(WRAPPER)


def part(kind, few=False):
    if few:
        return {"width": str(vp.integer("w", 1, 50)) + "px", "style": vp.choose("style", "solid", "none"), "color": vp.choose("color", "red", "#1a2")}[kind]
    if kind == "width":
        return vp.choose("width", "thin", "medium", str(vp.integer("w", 1, 50)) + "px", str(vp.integer("w", 1, 50)) + "em")
    if kind == "style":
        return vp.choose("style", "solid", "none", "hidden", "outset")
    return vp.choose("color", "red", "#1a2", "rgb(1,2,3)", "RoyalBlue")


def parts_of(name, kind):
    """the properties that a part of the shorthand stands for"""
    if name == "border":
        return ["border_" + side + "_" + kind for side in SIDES]
    return [name + "_" + kind]


KINDS = ("width", "style", "color")
ORDERS = [("width",), ("style",), ("color",), ("width", "style"), ("style", "width"), ("color", "width"), ("width", "color"), ("style", "color"), ("color", "style"),
          ("width", "style", "color"), ("width", "color", "style"), ("style", "width", "color"), ("style", "color", "width"), ("color", "width", "style"), ("color", "style", "width")]


def case_set(k):
    name, order, form, before = k
    s, want = CSS(), CSS()
    if before:
        busy(s)
        busy(want)
        for p in NAMES:
            if any(p in parts_of(name, kind) for kind in KINDS):
                delattr(want, p)
        for kind in KINDS:
            for p in parts_of(name, kind):
                setattr(s, p, {"width": "thick", "style": "dotted", "color": "blue"}[kind])
    values = [part(kind, len(order) > 1) for kind in order]
    if form == "text":
        value = " ".join(values)
    elif form == "blanks":
        value = "  " + "   ".join(values) + " "
    elif form == "list":
        value = list(values)
    else:
        value = tuple(values)
    if form == "blanks":
        s[name.replace("_", "-")] = value
    else:
        setattr(s, name, value)
    for kind, v in zip(order, values):
        for p in parts_of(name, kind):
            setattr(want, p, v)
    for p in NAMES:
        mine = any(p in parts_of(name, kind) for kind in KINDS)
        given = any(p in parts_of(name, kind) for kind in order)
        label = ("the parts of the value are set (" if given else "the other parts are reset (" if mine else "other properties are unaffected (") + name + ")"
        vp.prove(equal(getattr(s, p), getattr(want, p)), label, at=vp.site(s, "_" + p))


case_set.over = [(name, o, f, b) for name in sorted(SHORTHAND) for o in ORDERS for f, b in (("text", False), ("list", True))] + [
    (name, o, f, True) for name in sorted(SHORTHAND) for o in (("style",), ("color", "style", "width")) for f in ("blanks", "tuple")]


def case_keyword_first(name):
    """words are taken for the first part that they are valid for"""
    s = CSS()
    if name == "outline":
        setattr(s, name, "inherit")
        return
    setattr(s, name, "none")
    for p in parts_of(name, "style"):
        vp.prove(getattr(s, p) is None, "none is a style (" + name + ")")
    setattr(s, name, "transparent 0")
    for p in parts_of(name, "color"):
        vp.prove(getattr(s, p) == "transparent", "transparent is a colour (" + name + ")")
    for p in parts_of(name, "width"):
        vp.prove(getattr(s, p) == 0, "0 is a width (" + name + ")")


case_keyword_first.over = sorted(SHORTHAND)


def case_get(k):
    """the shorthand reports the parts that are set"""
    name, which = k
    s = CSS()
    for kind in which:
        setattr(s, name + "_" + kind, part(kind))
    got = getattr(s, name)
    # the initial value isn't stored, e.g. a style of none
    stored = [kind for kind in KINDS if name + "_" + kind in s.keys()]
    if not stored:
        vp.prove(got == "", "a shorthand without parts is empty (" + name + ")")
        return
    vp.prove(isinstance(got, WRAPPER[name]), "a shorthand reports its parts (" + name + ")")
    d = got.to_dict()
    vp.prove(len(d) == len(stored), "a shorthand reports its parts (" + name + ")")
    for kind in stored:
        p = name + "_" + kind
        vp.prove(p in d and equal(d[p], getattr(s, p)) and equal(getattr(got, p), getattr(s, p)), "a shorthand reports its parts (" + name + ")")


case_get.over = [(n, w) for n in LONG for w in ((), ("width",), ("style",), ("color",), ("width", "style"), ("width", "style", "color"))]


def case_refused(k):
    name, value = k
    s = CSS()
    setattr(s, name, "thick dotted blue")
    old = snapshot(s)
    try:
        setattr(s, name, value)
        vp.prove(False, "what isn't a list of different parts is refused (" + name + ")")
    except ValueError:
        vp.prove(unchanged(s, old), "a refused value changes nothing (" + name + ")")


BAD = ("thin thick", "solid dotted", "red blue", "thin solid red solid", "thin solid red 1px", "xyz", "thin xyz", "thin, solid", "", 0, 3, (), [], {}, ("thin", "thin"), ("thin", "xyz"), ["solid red"])
case_refused.over = [(n, b) for n in sorted(SHORTHAND) for b in BAD]


def case_text(name):
    """the textual form of a shorthand is a value of the shorthand"""
    s, t = CSS(), CSS()
    w = vp.integer("w", 1, 50)
    setattr(s, name, ["solid", str(w) + "px"])
    setattr(t, name, str(getattr(s, name)))
    vp.prove(getattr(s, name) == getattr(t, name), "the textual form of a shorthand can be set again (" + name + ")")
    setattr(t, name, "dotted")
    vp.prove(getattr(s, name) != getattr(t, name), "different shorthands aren't equal (" + name + ")")


case_text.over = LONG


def case_wrapper(name):
    """a wrapper accepts its own parts only"""
    c = WRAPPER[name]
    ok = c(**{name + "_width": 1})
    vp.prove(ok.to_dict()[name + "_width"] == 1, "a shorthand reports its parts (" + name + ")")
    for key in (name + "_height", "color", "border_width" if name != "border" else "x"):
        try:
            c(**{key: 1})
            vp.prove(False, "a shorthand has no other parts (" + name + ")")
        except ValueError:
            vp.prove(True, "a shorthand has no other parts (" + name + ")")


case_wrapper.over = LONG


def case_among(k):
    """whatever other properties are"""
    name, order = k
    mine = [p for kind in KINDS for p in parts_of(name, kind)]
    s, want = opened(CSS(), None, mine), CSS()
    values = [part(kind, True) for kind in order]
    for p in mine:
        setattr(s, p, EVERY[p][0])
    setattr(s, name, " ".join(values))
    for kind, v in zip(order, values):
        for p in parts_of(name, kind):
            setattr(want, p, v)
    # the initial colour of a border is that of the text
    mine = [p for p in mine if not (p.startswith("border") and p.endswith("color") and "color" not in order)]
    for p in mine:
        vp.prove(equal(getattr(s, p), getattr(want, p)), "the parts of the value are set, whatever other properties are (" + name + ")", at=vp.site(s, "_" + p))
    if name != "border":
        vp.prove(str(getattr(s, name)) == str(getattr(want, name)), "the shorthand reports its parts, whatever other properties are (" + name + ")")
    delattr(s, name)
    mine = [p for p in mine if not (p.startswith("border") and p.endswith("color"))]
    for p in mine:
        vp.prove(equal(getattr(s, p), getattr(CSS(), p)), "the parts are deleted, whatever other properties are (" + name + ")", at=vp.site(s, "_" + p))


case_among.over = [(name, o) for name in sorted(SHORTHAND) for o in ORDERS]
