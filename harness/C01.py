"""A style only holds valid values, in their canonical form"""
import vp
from spec.common import CSS, node
from spec.lazy import busy, opened
from spec.grammar import ALL, DYNAMIC, NAMES, P, keyword_value
from spec.values import CANONICAL, any_value, equal, value


def canonical(name, got, label):
    keywords, kind, initial = P[name]
    words = [keyword_value(k) for k in keywords]
    if got is None or isinstance(got, str):
        vp.prove(got in words, label)
    else:
        vp.prove(kind is not None and isinstance(got, CANONICAL[kind]), label)


def case_canonical(name):
    """any accepted value"""
    s = node().style
    setattr(s, name, any_value(name))
    canonical(name, getattr(s, name), "what a style holds is a keyword of the property or a parsed value (" + name + ")")


case_canonical.over = NAMES


def case_idempotent(name):
    """what a style reports can be set again, and is the same then"""
    s, t = CSS(), CSS()
    setattr(s, name, any_value(name))
    got = getattr(s, name)
    if got is None:
        setattr(t, name, "none")
    else:
        setattr(t, name, got)
    vp.prove(equal(getattr(t, name), got), "what a style reports can be set again and is the same then (" + name + ")", at=vp.site(t, "_" + name))
    setattr(s, name, "none" if got is None else got)
    vp.prove(equal(getattr(s, name), got), "what a style reports can be set again and is the same then (" + name + ")", at=vp.site(s, "_" + name))


case_idempotent.over = NAMES


def case_last(name):
    """the last of two values counts"""
    s, t = CSS(), CSS()
    second = any_value(name, "2")
    setattr(s, name, any_value(name, "1"))
    setattr(s, name, second)
    setattr(t, name, second)
    vp.prove(equal(getattr(s, name), getattr(t, name)), "the last value that was set is reported (" + name + ")", at=vp.site(s, "_" + name))


case_last.over = NAMES


def case_independent(name):
    """setting a property changes no other property (except the ones that depend on it)"""
    s = CSS(border_top_width="thin", outline_color="red", clip="rect(1,2,3,4)", direction="ltr", width=5, color="blue", text_align="center", border_left_color="green")
    if vp.choose("all properties are set", False, True):
        busy(s)
    before = {p: getattr(s, p) for p in NAMES}
    setattr(s, name, any_value(name))
    for p in NAMES:
        if p != name and not (name == "color" and p in ("border_top_color", "border_right_color", "border_bottom_color")):
            vp.prove(equal(getattr(s, p), before[p]), "setting a property changes no other property (" + name + ")", at=vp.site(s, "_" + p))


case_independent.over = NAMES


def case_styles(name):
    """styles don't share anything"""
    s, t = CSS(), CSS()
    old = getattr(t, name)
    setattr(s, name, any_value(name))
    vp.prove(equal(getattr(t, name), old), "setting a property of a style doesn't change another style (" + name + ")")
    vp.prove(len(t.items()) == 0, "setting a property of a style doesn't change another style (" + name + ")")


case_styles.over = NAMES


def case_among(name):
    """whatever other properties are set"""
    s, t = opened(CSS(), None, (name,)), CSS()
    v = any_value(name)
    setattr(s, name, v)
    setattr(t, name, v)
    vp.prove(equal(getattr(s, name), getattr(t, name)), "a property is reported as it was set, whatever other properties are (" + name + ")", at=vp.site(s, "_" + name))
    delattr(s, name)
    delattr(t, name)
    if P[name][2] is not DYNAMIC:
        vp.prove(equal(getattr(s, name), getattr(t, name)), "a property is reported as it was set, whatever other properties are (" + name + ")", at=vp.site(s, "_" + name))


case_among.over = NAMES
