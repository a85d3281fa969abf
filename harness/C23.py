"""The collapsed margin of a box is the largest margin it was given since its reset"""
import vp
from spec.common import node

SIDES = ("top", "right", "bottom", "left")


def largest(values):
    m = 0
    for v in values:
        if v != "auto":
            m = max(m, v)
    return m


def case_margin(k):
    """a sequence of margins and of collapsed margins of children"""
    side, kinds, number = k
    b = node().layout
    given = []
    last = 0
    for i, kind in enumerate(kinds):
        v = "auto" if kind == "auto" else number("v%d" % i, -300, 300)
        if kind == "child":
            setattr(b, "collapse_" + side, v)
        else:
            setattr(b, "margin_" + side, v)
            last = v
        given.append(v)
        vp.prove(getattr(b, "collapse_" + side) == largest(given), "the collapsed margin is the largest margin so far, or 0", at=vp.site(b, "_collapse_" + side))
        vp.prove(getattr(b, "margin_" + side) == last, "a margin is the last one that was set", at=vp.site(b, "_margin_" + side))
    for other in SIDES:
        if other != side:
            vp.prove(getattr(b, "collapse_" + other) == 0 and getattr(b, "margin_" + other) == 0, "the other sides are unaffected")


def ints(name, lo, hi):
    return vp.integer(name, lo, hi)


def reals(name, lo, hi):
    return vp.real(name, lo, hi)


def table():
    out = []
    for side in SIDES:
        for kinds in (("own",), ("own", "own"), ("own", "child"), ("child", "own", "child"), ("auto", "own", "child"), ("own", "auto", "own")):
            out.append((side, kinds, ints))
        out.append((side, ("own", "child"), reals))
    return out


case_margin.over = table()


def case_reset(k):
    """after a reset, only later margins count"""
    b = node().layout
    setattr(b, "margin_" + k, vp.integer("old", -300, 300))
    setattr(b, "collapse_" + k, vp.integer("child", -300, 300))
    b.reset()
    vp.prove(getattr(b, "collapse_" + k) == 0 and getattr(b, "margin_" + k) == 0, "a reset forgets the collapsed margins", at=vp.site(b, "_collapse_" + k))
    setattr(b, "margin_" + k, vp.integer("new", -300, 300))
    vp.prove(getattr(b, "collapse_" + k) == max(0, vp.integer("new", -300, 300)), "after a reset, only later margins count", at=vp.site(b, "_collapse_" + k))


case_reset.over = SIDES
