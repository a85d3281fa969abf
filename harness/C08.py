"""Item access, update() and the constructor are the same as attribute access, under CSS and Python names"""
import vp
from spec.common import CSS, Node, node
from spec.grammar import ALL, DIRECTIONAL, NAMES, P, SHORTHAND, SIDES
from spec.lazy import EVERY, busy
from spec.values import any_value, equal, snapshot, unchanged


def same(s, t, label):
    vp.prove(s.keys() == t.keys(), label)
    for p in NAMES:
        vp.prove(equal(getattr(s, p), getattr(t, p)), label, at=vp.site(t, "_" + p))


def spelled(name, how):
    """the spellings of a name"""
    if how == "python":
        return name
    if how == "css":
        return name.replace("_", "-")
    return name.replace("_", "-", 1)


def sample(name):
    if name in P:
        return any_value(name)
    if name in ("margin", "padding", "border_width"):
        return vp.choose("v", vp.integer("v", 1, 50), (vp.integer("v", 1, 50), 3))
    if name == "border_style":
        return ("solid", "dotted")
    if name == "border_color":
        return "red"
    return "thin solid"


def case_set(k):
    name, how = k
    v = sample(name)
    a, b, c, d = CSS(), CSS(), CSS(), CSS(**{spelled(name, how): v})
    setattr(a, name, v)
    b[spelled(name, how)] = v
    c.update(**{spelled(name, how): v})
    same(a, b, "setting an item is setting the attribute (" + name + ")")
    same(a, c, "update() sets the attributes (" + name + ")")
    same(a, d, "the constructor sets the attributes (" + name + ")")


case_set.over = [(n, h) for n in ALL for h in (("python", "css", "mixed") if "_" in n else ("python",))]


def case_get(k):
    name, how = k
    s = CSS()
    got = s[spelled(name, how)]
    if name in P:
        vp.prove(equal(got, getattr(s, name)), "an item is the attribute (" + name + ")")
        setattr(s, name, any_value(name))
        vp.prove(equal(s[spelled(name, how)], getattr(s, name)), "an item is the attribute (" + name + ")")
    elif name in DIRECTIONAL:
        vp.prove(isinstance(got, tuple) and len(got) == 4 and all(equal(x, getattr(s, DIRECTIONAL[name] % side)) for x, side in zip(got, SIDES)), "an item is the attribute (" + name + ")")
    else:
        vp.prove(got == "", "an item is the attribute (" + name + ")")


case_get.over = [(n, h) for n in ALL for h in (("python", "css", "mixed") if "_" in n else ("python",))]


def case_delete(k):
    name, how, via = k
    v = sample(name)
    a, b = CSS(width=3, float="left"), CSS(width=3, float="left")
    setattr(a, name, v)
    setattr(b, name, v)
    delattr(a, name)
    if via == "item":
        del b[spelled(name, how)]
    else:
        b.update(**{spelled(name, how): None})
    same(a, b, "deleting an item, or updating with None, is deleting the attribute (" + name + ")")
    if via == "item":
        del b[spelled(name, how)]
        same(a, b, "deleting again changes nothing (" + name + ")")


case_delete.over = [(n, h, v) for n in ALL for h in (("python", "css") if "_" in n else ("python",)) for v in ("item", "update")]


def case_update_many():
    """all the styles of an update"""
    w, m = vp.integer("w", 0, 50), vp.integer("m", 0, 50)
    s, t = CSS(color="red", height=3), CSS()
    s.update(**{"width": w, "margin-top": m, "border_left": "thin solid", "color": None, "text-align": "center"})
    t.width, t.margin_top, t.border_left, t.text_align, t.height = w, m, "thin solid", "center", 3
    same(s, t, "update() sets the attributes")
    u = CSS(**{"width": w, "margin-top": m, "border_left": "thin solid", "color": None, "text-align": "center"})
    u.height = 3
    same(u, t, "the constructor sets the attributes")


def case_order():
    """a shorthand, then one of its parts; and the other way round"""
    s = CSS(margin=5, margin_left=vp.integer("l", 6, 50))
    vp.prove(s.margin_left == vp.integer("l", 6, 50) and s.margin_top == 5, "styles are set in the order that is given")
    t = CSS(margin_left=vp.integer("l", 6, 50), margin=5)
    vp.prove(t.margin_left == 5 and t.margin_top == 5, "styles are set in the order that is given")
    u = CSS()
    u.update(border_top_style="dotted", border_top="thin solid")
    vp.prove(u.border_top_style == "solid", "styles are set in the order that is given")
    u.update(border_top="thin solid", border_top_style="dotted")
    vp.prove(u.border_top_style == "dotted", "styles are set in the order that is given")


def case_busy(k):
    """in a style with all properties"""
    name, what = k
    a, b, c = busy(CSS()), busy(CSS()), busy(CSS())
    if what == "delete":
        delattr(a, name)
        del b[spelled(name, "css")]
        c.update(**{spelled(name, "css"): None})
    else:
        v = sample(name) if name not in P else EVERY[name][0]
        setattr(a, name, v)
        b[spelled(name, "css")] = v
        c.update(**{spelled(name, "css"): v})
    same(a, b, "items are the attributes (" + name + ")")
    same(a, c, "update() sets the attributes (" + name + ")")


case_busy.over = [(n, w) for n in ALL for w in ("set", "delete")]
