"""Deleting a property brings back its initial value"""
import vp
from spec.common import CSS, Node, node
from spec.grammar import ALL, DIRECTIONAL, DYNAMIC, NAMES, P, SHORTHAND, SIDES
from spec.lazy import busy
from spec.values import any_value, equal, snapshot, unchanged


def remove(s, name, how):
    if how == "attribute":
        delattr(s, name)
    elif how == "item":
        del s[name.replace("_", "-")]
    else:
        s.update(**{name: None})


def case_delete(k):
    name, how = k
    s, fresh = CSS(width=5, color="blue"), CSS(width=5, color="blue")
    if name in ("width", "color"):
        fresh = CSS()
        s = CSS()
    setattr(s, name, any_value(name))
    remove(s, name, how)
    vp.prove(equal(getattr(s, name), getattr(fresh, name)), "a deleted property has its initial value (" + name + ")")
    vp.prove(name not in s.keys(), "a deleted property isn't specified any more (" + name + ")")
    for p in NAMES:
        vp.prove(equal(getattr(s, p), getattr(fresh, p)), "deleting a property changes no other property (" + name + ")")
    old = snapshot(s)
    remove(s, name, how)
    vp.prove(unchanged(s, old), "deleting a property that isn't set changes nothing (" + name + ")")


case_delete.over = [(n, h) for n in NAMES for h in ("attribute", "item", "update")]


def case_delete_compound(k):
    name, how = k
    s = CSS(width=5)
    parts = [p for p in NAMES if CSSPART(name, p)]
    for p in parts:
        if vp.choose("set_" + p, True, False):
            setattr(s, p, "red" if p.endswith("color") else "thin" if p.endswith("width") else "solid" if p.endswith("style") else 7)
    remove(s, name, how)
    for p in parts:
        vp.prove(p not in s.keys() and equal(getattr(s, p), getattr(CSS(), p)), "deleting a shorthand deletes all its parts (" + name + ")")
    vp.prove(s.width == 5 and s.keys() == {"width"}, "deleting a shorthand changes no other property (" + name + ")")


def CSSPART(name, p):
    """is p a part of the compound property?"""
    if name in DIRECTIONAL:
        return p in [DIRECTIONAL[name] % side for side in SIDES]
    if name == "border":
        return p.startswith("border_") and p.split("_")[-1] in ("width", "style", "color")
    return p in SHORTHAND[name]


case_delete_compound.over = [(n, h) for n in sorted(DIRECTIONAL) + [x for x in sorted(SHORTHAND) if x != "border"] for h in ("attribute", "item", "update")]


def case_dynamic(owned):
    """initial values that depend on another property follow it, unless the property is set"""
    s = node().style if owned else CSS()
    before = s.text_align
    s.direction = vp.choose("d1", "ltr", "rtl")
    vp.prove(s.text_align == ("left" if s.direction == "ltr" else "right"), "the initial alignment follows the direction")
    s.direction = vp.choose("d2", "ltr", "rtl")
    vp.prove(s.text_align == ("left" if s.direction == "ltr" else "right"), "the initial alignment follows the direction")
    s.text_align = vp.choose("a", "left", "right", "center", "justify", "inherit")
    a = s.text_align
    s.direction = vp.choose("d3", "ltr", "rtl")
    vp.prove(s.text_align == a, "an alignment that is set doesn't follow the direction")
    del s.text_align
    vp.prove(s.text_align == ("left" if s.direction == "ltr" else "right"), "the initial alignment follows the direction")


case_dynamic.over = (False, True)


def case_colors(k):
    side, owned = k
    name = "border_" + side + "_color"
    s = node().style if owned else CSS()
    vp.prove(getattr(s, name) is s.color, "the initial border colour is the colour")
    s.color = "red"
    vp.prove(getattr(s, name) is s.color, "the initial border colour is the colour")
    setattr(s, name, "blue")
    b = getattr(s, name)
    s.color = "green"
    vp.prove(getattr(s, name) is b and b.b == 255, "a border colour that is set doesn't follow the colour")
    delattr(s, name)
    vp.prove(getattr(s, name) is s.color, "the initial border colour is the colour")
    del s.color
    vp.prove(getattr(s, name) is s.color and s.color is CSS().color, "the initial border colour is the colour")


case_colors.over = [(side, owned) for side in SIDES for owned in (False, True)]


def case_busy(k):
    """in a style with all properties"""
    name, how = k
    s, fresh = busy(CSS()), CSS()
    old = snapshot(s)
    parts = [p for p in NAMES if (p == name if name in P else CSSPART(name, p))]
    remove(s, name, how)
    for p in NAMES:
        if p not in parts:
            depends = name == "color" and p.startswith("border") and p.endswith("color") or name == "direction" and p == "text_align"
            vp.prove(depends or equal(getattr(s, p), old[1][p]), "deleting a property changes no other property (" + name + ")", at=vp.site(s, "_" + p))
        elif P[p][2] is not DYNAMIC:
            vp.prove(equal(getattr(s, p), getattr(fresh, p)), "a deleted property has its initial value (" + name + ")", at=vp.site(s, "_" + p))
        vp.prove((p in s.keys()) is (p not in parts and p in old[0]), "a deleted property isn't specified any more (" + name + ")")


case_busy.over = [(n, h) for n in [x for x in ALL if x != "border"] for h in ("attribute", "item", "update")]
