"""keys(), items() and the textual form report exactly what is specified"""
import vp
from spec.common import CSS, Node, node
from spec.grammar import ALL, DIRECTIONAL, NAMES, P, SHORTHAND, SIDES
from spec.values import any_value, equal, snapshot, unchanged


def text(name, value):
    return name.replace("_", "-") + ": " + str(value)


def case_one(name):
    s = CSS()
    v = any_value(name)
    setattr(s, name, v)
    got = getattr(s, name)
    old = snapshot(s)
    if name in s.keys():
        vp.prove(s.keys() == {name}, "the keys are the properties that are set (" + name + ")")
        items = s.items()
        vp.prove(len(items) == 1 and items[0][0] == name and equal(items[0][1], got), "the items are the properties that are set, with their values (" + name + ")")
        vp.prove(str(s) == text(name, got), "the textual form lists the properties that are set (" + name + ")")
    else:
        vp.prove(equal(got, getattr(CSS(), name)), "only an initial value isn't among the keys (" + name + ")")
        vp.prove(len(s.keys()) == 0 and len(s.items()) == 0 and str(s) == "", "what isn't set isn't reported (" + name + ")")
    vp.prove(unchanged(s, old), "reporting doesn't change the style")


case_one.over = NAMES
case_one.orders = True


def case_many(k):
    """several properties: each once; sorted in the textual form"""
    w, m, z = vp.integer("w", 1, 50), vp.integer("m", 1, 50), vp.integer("z", 1, 50)
    s = CSS()
    for name in k:
        s[name] = {"width": w, "margin-top": m, "z_index": z, "display": "block", "float": "left", "text-align": "center"}[name]
    want = sorted(n.replace("_", "-") for n in k)
    vp.prove(s.keys() == {n.replace("-", "_") for n in k}, "the keys are the properties that are set")
    vp.prove(len(s.items()) == len(k) and {n for n, v in s.items()} == s.keys(), "the items are the properties that are set, with their values")
    for n, v in s.items():
        vp.prove(equal(v, getattr(s, n)), "the items are the properties that are set, with their values")
    vp.prove(str(s) == "; ".join(text(n, s[n]) for n in want), "the textual form lists the properties that are set, in the order of their names")


case_many.over = [("width", "display"), ("display", "width", "float"), ("z_index", "margin-top", "width", "display"), ("text-align", "float", "display", "z_index", "width", "margin-top")]
case_many.orders = True


def case_compound(k):
    """directional properties and shorthands are reported through their parts"""
    name, value, parts = k
    s = CSS()
    setattr(s, name, value)
    vp.prove(s.keys() == set(parts), "a shorthand is reported through its parts (" + name + ")")
    vp.prove({n for n, v in s.items()} == set(parts) and len(s.items()) == len(parts), "a shorthand is reported through its parts (" + name + ")")


case_compound.over = [("margin", (1, 2, 3, 4), ["margin_" + s for s in SIDES]), ("padding", 3, ["padding_" + s for s in SIDES]), ("border_width", "thin", ["border_" + s + "_width" for s in SIDES]),
                      ("border_style", ("solid", "dotted"), ["border_" + s + "_style" for s in SIDES]), ("border_color", "red", ["border_" + s + "_color" for s in SIDES]),
                      ("border_top", "thin solid", ["border_top_width", "border_top_style"]), ("outline", "red thin", ["outline_color", "outline_width"]),
                      ("border", "2px", ["border_" + s + "_width" for s in SIDES])]
case_compound.orders = True


def case_rebuild(k):
    """a style that is built from the items is the same"""
    s = CSS(**k)
    t = CSS(**{n: v for n, v in s.items() if v is not None})
    for n, v in s.items():
        if v is None:
            t[n] = "none"
    vp.prove(s.keys() == t.keys() and str(s) == str(t), "a style can be rebuilt from its items")
    for p in NAMES:
        vp.prove(equal(getattr(s, p), getattr(t, p)), "a style can be rebuilt from its items")


case_rebuild.over = [{"width": 5, "margin": (1, 2, 3, "auto"), "display": "none"}, {"border_top": "thin solid red", "outline": "dotted", "clip": "rect(1,2,3,4)"},
                     {"quotes": "'a' 'b'", "cursor": "url(x), help", "border_spacing": "1px 2px", "color": "#123456"}, {}]
case_rebuild.orders = True


def case_names():
    """the names are Python names of properties"""
    s = CSS(**{"margin-top": 3, "z-index": 4, "text-align": "center"})
    for n in s.keys():
        vp.prove(n in NAMES, "the keys are Python names")
    vp.prove("margin_top" in s.keys(), "the keys are Python names")
