"""Directional properties stand for their four sides"""
import vp
from spec.common import CSS, Node, node
from spec.grammar import DIRECTIONAL, NAMES, P, SIDES
from spec.lazy import busy, opened
from spec.values import any_value, equal, snapshot, unchanged


def values(name):
    """four values for the sides, all different"""
    if name == "border_style":
        return ["solid", "dotted", "dashed", "groove"]
    if name == "border_color":
        return ["red", "#123", "rgb(1, 2, 3)", "transparent"]
    if name == "border_width":
        return ["thin", vp.integer("b", 1, 50), str(vp.integer("c", 1, 50)) + "em", "thick"]
    if name == "margin":
        return ["auto", vp.integer("b", -50, 50), str(vp.integer("c", 1, 50)) + "%", vp.integer("d", -50, 50)]
    return [vp.integer("a", 0, 50), vp.integer("b", 0, 50), str(vp.integer("c", 1, 50)) + "%", vp.integer("d", 0, 50)]


# which of the values belongs to the top, right, bottom and left side
WHICH = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}


def case_set(k):
    name, n, form, before = k
    s, want = CSS(), CSS()
    if before == "busy":
        busy(s)
        busy(want)
    elif before:
        for side in SIDES:
            setattr(s, DIRECTIONAL[name] % side, any_value(DIRECTIONAL[name] % side, side))
    v = values(name)
    value = v[0] if form == "plain" else tuple(v[:n])
    if form == "item":
        s[name.replace("_", "-")] = value
    elif form == "update":
        s.update(**{name: value})
    else:
        setattr(s, name, value)
    for i, side in enumerate(SIDES):
        p = DIRECTIONAL[name] % side
        setattr(want, p, v[WHICH[n][i]])
        vp.prove(equal(getattr(s, p), getattr(want, p)), "each side gets its value (" + name + ")", at=vp.site(s, "_" + p))
    got = getattr(s, name)
    vp.prove(isinstance(got, tuple) and len(got) == 4, "a directional property reports its four sides (" + name + ")")
    for i, side in enumerate(SIDES):
        vp.prove(equal(got[i], getattr(s, DIRECTIONAL[name] % side)), "a directional property reports its four sides (" + name + ")")
    for p in NAMES:
        if p not in [DIRECTIONAL[name] % side for side in SIDES]:
            vp.prove(equal(getattr(s, p), getattr(want, p)), "a directional property changes nothing else (" + name + ")")


case_set.over = [(name, n, form, b) for name in sorted(DIRECTIONAL) for n, form in ((1, "plain"), (1, "tuple"), (2, "tuple"), (3, "tuple"), (4, "tuple"), (4, "item"), (3, "update"))
                 for b in (False, "busy")]
case_set.more = case_set.over + [(name, 4, "tuple", True) for name in ("border_style",)]


def case_read(k):
    """the sides, however they were set"""
    name, which = k
    s = CSS()
    for side in which:
        p = DIRECTIONAL[name] % side
        setattr(s, p, any_value(p, side))
    got = getattr(s, name)
    for i, side in enumerate(SIDES):
        vp.prove(equal(got[i], getattr(s, DIRECTIONAL[name] % side)), "a directional property reports its four sides (" + name + ")")


case_read.over = [(name, w) for name in sorted(DIRECTIONAL) for w in ((), ("top",), ("right",), ("bottom",), ("left",))]


def case_again(name):
    """what a directional property reports can be set again"""
    s, t = CSS(), CSS()
    v = values(name)
    setattr(s, name, tuple(v))
    setattr(t, name, getattr(s, name))
    for side in SIDES:
        p = DIRECTIONAL[name] % side
        vp.prove(equal(getattr(s, p), getattr(t, p)), "what a directional property reports can be set again (" + name + ")")


case_again.over = sorted(DIRECTIONAL)


def case_length(k):
    """tuples of any other length"""
    name, n = k
    s = CSS()
    setattr(s, name, values(name)[1])
    old = snapshot(s)
    try:
        setattr(s, name, tuple([values(name)[1]] * n))
        vp.prove(False, "other lengths are refused (" + name + ")")
    except ValueError:
        vp.prove(unchanged(s, old), "a refused value changes nothing (" + name + ")")


case_length.over = [(name, n) for name in sorted(DIRECTIONAL) for n in (0, 5, 6)]


def case_bad(k):
    """an invalid side"""
    name, n, bad = k
    s = CSS()
    for side in SIDES:
        setattr(s, DIRECTIONAL[name] % side, values(name)[3])
    old = snapshot(s)
    v = values(name)[:n]
    v[bad] = "no such value"
    try:
        setattr(s, name, tuple(v))
        vp.prove(False, "an invalid side is refused (" + name + ")")
    except ValueError:
        vp.prove(unchanged(s, old), "a refused value changes nothing (" + name + ")")


case_bad.over = [(name, n, b) for name in sorted(DIRECTIONAL) for n in (1, 2, 3, 4) for b in range(n)]


def case_among(k):
    """whatever other properties are"""
    name, n = k
    sides = [DIRECTIONAL[name] % side for side in SIDES]
    s, want = opened(CSS(), None, sides), CSS()
    v = values(name)
    setattr(s, name, tuple(v[:n]))
    got = getattr(s, name)
    for i, side in enumerate(SIDES):
        setattr(want, sides[i], v[WHICH[n][i]])
        vp.prove(equal(getattr(s, sides[i]), getattr(want, sides[i])) and equal(got[i], getattr(s, sides[i])), "each side gets its value, whatever other properties are (" + name + ")", at=vp.site(s, "_" + sides[i]))
    delattr(s, name)
    if name != "border_color":
        for p in sides:
            vp.prove(equal(getattr(s, p), getattr(CSS(), p)), "a directional property is deleted, whatever other properties are (" + name + ")", at=vp.site(s, "_" + p))


case_among.over = [(name, n) for name in sorted(DIRECTIONAL) for n in (1, 2, 3, 4)]
