"""Shorthand values report exactly their parts"""
import vp
from colosseum import units as u
from colosseum.colors import rgb
from colosseum.wrappers import Border, BorderBottom, BorderLeft, BorderRight, BorderTop, Outline
from spec.common import CSS

WRAPPER = {"border": Border, "border_top": BorderTop, "border_right": BorderRight, "border_bottom": BorderBottom, "border_left": BorderLeft, "outline": Outline}
KINDS = ("width", "style", "color")
SUBSETS = [(), ("width",), ("style",), ("color",), ("width", "style"), ("style", "width"), ("color", "width"), ("color", "style"),
           ("width", "style", "color"), ("color", "style", "width"), ("style", "color", "width")]


def values(tag=""):
    return {"width": vp.choose("width" + tag, vp.integer("w" + tag, 0, 500) * u.px, "thin"), "style": vp.choose("style" + tag, "solid", None), "color": vp.choose("color" + tag, rgb(vp.integer("r" + tag, 0, 255), 2, 3), "transparent")}


def make(name, kinds, v):
    parts = {}
    for kind in kinds:
        parts[name + "_" + kind] = v[kind]
    return WRAPPER[name](**parts), parts


def case_parts(k):
    name, kinds = k
    v = values()
    x, parts = make(name, kinds, v)
    d = x.to_dict()
    vp.prove(set(d) == set(parts) and len(d) == len(parts), "a shorthand value has exactly the parts it was given (" + name + ")")
    for kind in KINDS:
        p = name + "_" + kind
        if kind in kinds:
            vp.prove(p in d and d[p] is v[kind] and getattr(x, p) is v[kind], "a shorthand value has exactly the parts it was given (" + name + ")")
        else:
            vp.prove(not hasattr(x, p), "a shorthand value has exactly the parts it was given (" + name + ")")
    full, _ = make(name, KINDS, v)
    order = [p for p in full.to_dict() if p in parts]
    vp.prove(list(d) == order, "the order of the parts is the shorthand's (" + name + ")")
    vp.prove(str(x) == " ".join(str(d[p]) for p in order), "the text has the texts of the parts (" + name + ")")
    text = repr(x)
    vp.prove(text == type(x).__name__ + "(" + ", ".join(p + "=" + repr(d[p]) for p in order) + ")", "repr() names the parts (" + name + ")")
    # what to_dict() gives is the caller's
    for p in order:
        d[p] = None
    d["x"] = 5
    vp.prove(str(x) == " ".join(str(parts[p]) for p in order), "the dictionary is the caller's (" + name + ")")


case_parts.over = [(n, s) for n in sorted(WRAPPER) for s in SUBSETS]


def case_equal(k):
    name, a, b = k
    v, w = values(), values("2")
    x, y = make(name, a, v)[0], make(name, b, w)[0]
    want = set(a) == set(b) and all(equal_part(kind, v, w) for kind in a)
    vp.prove((x == y) is want and (x != y) is (not want), "shorthand values are equal if their parts are (" + name + ")")
    vp.prove(x == make(name, a, v)[0], "shorthand values are equal if their parts are (" + name + ")")


def equal_part(kind, v, w):
    if kind == "width" and not isinstance(v[kind], str) and not isinstance(w[kind], str):
        return v[kind].val == w[kind].val
    return v[kind] == w[kind]


case_equal.over = [(n, a, b) for n in sorted(WRAPPER) for a in SUBSETS[:8] for b in SUBSETS[:8] if set(a) == set(b) or not set(a) & set(b) or n == "outline"]


def case_kinds(k):
    """values of different shorthands, and of other kinds, aren't equal"""
    a, b = k
    x, y = make(a, (), values())[0], make(b, (), values())[0]
    vp.prove((x == y) is (a == b), "values of different shorthands aren't equal")
    vp.prove(x != "" and x != None and x != {} and x != 5 and x != object(), "values of different shorthands aren't equal")  # noqa: E711


case_kinds.over = [(a, b) for a in sorted(WRAPPER) for b in sorted(WRAPPER)]


def case_names(k):
    """other names are refused"""
    name, other = k
    try:
        WRAPPER[name](**{other: 5})
        vp.prove(False, "a name that no part has is refused (" + name + ")")
    except ValueError:
        vp.prove(True, "a name that no part has is refused (" + name + ")")
    try:
        WRAPPER[name](**{name + "_width": 1, other: 5})
        vp.prove(False, "a name that no part has is refused (" + name + ")")
    except ValueError:
        vp.prove(True, "a name that no part has is refused (" + name + ")")


OTHER = ["x", "width", "color", "margin_top", "border_top", "VALID_KEYS", "to_dict"]
case_names.over = [(n, o) for n in sorted(WRAPPER) for o in OTHER + [m + "_" + k for m in sorted(WRAPPER) if m != n for k in KINDS]]


def case_snapshot(name):
    """what a style reports is a value: it doesn't change with the style, nor the style with it"""
    s = CSS()
    w, x = vp.integer("w", 1, 500), vp.integer("x", 1, 500)
    vp.assume(w != x)
    setattr(s, name + "_width", w)
    setattr(s, name + "_style", "dotted")
    got = getattr(s, name)
    setattr(s, name + "_width", x)
    delattr(s, name + "_style")
    vp.prove(getattr(got, name + "_width") == w and getattr(got, name + "_style") == "dotted", "the value that was reported doesn't change (" + name + ")")
    vp.prove(got != getattr(s, name), "the value that was reported doesn't change (" + name + ")")
    setattr(got, name + "_width", 3 * u.em)
    vp.prove(getattr(s, name + "_width") == x, "a reported value isn't part of the style (" + name + ")")


case_snapshot.over = [n for n in sorted(WRAPPER) if n != "border"]
