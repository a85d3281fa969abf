"""Changing a style makes the layout of its node invalid; what isn't a change doesn't"""
import vp
from spec.common import CSS, Node, node
from spec.grammar import ALL, DIRECTIONAL, DYNAMIC, NAMES, P, SHORTHAND, keyword_value
from spec.lazy import EVERY, opened
from spec.values import any_value, equal, value


def laid_out(style, state):
    n = Node(style, [node(node())])
    n.layout.dirty = state
    return n


def boxes(n):
    return (n.layout, n.children[0].layout, n.children[0].children[0].layout)


def case_change(k):
    """from any value to any other"""
    name, how, state = k
    s = CSS()
    if how != "first":
        setattr(s, name, any_value(name, "1"))
    n = laid_out(s, state)
    old = getattr(n.style, name)
    try:
        if how == "delete":
            delattr(n.style, name)
        elif how == "item":
            n.style[name.replace("_", "-")] = any_value(name, "2")
        elif how == "update":
            n.style.update(**{name: any_value(name, "2")})
        else:
            setattr(n.style, name, any_value(name, "2"))
    except ValueError:
        return
    new = getattr(n.style, name)
    if not equal(old, new):
        for b in boxes(n):
            vp.prove(b.dirty is True, "a change of the style makes the layout invalid (" + name + ")", at=vp.site(b, "_dirty"))
    else:
        vp.prove(n.style.dirty is n.layout.dirty, "the style knows the state of the layout")


case_change.over = [(n, h, s) for n in NAMES for h, s in (("set", False), ("first", False), ("delete", False), ("set", None))]
case_change.more = [(n, h, s) for n in NAMES for h in ("set", "first", "delete", "item", "update") for s in (False, None)]


def case_same(name):
    """setting the value that is already set"""
    s = CSS()
    v = any_value(name)
    setattr(s, name, v)
    n = laid_out(s, False)
    got = getattr(n.style, name)
    setattr(n.style, name, "none" if got is None else got)
    for b in boxes(n):
        vp.prove(b.dirty is False, "setting the value that is already set is no change (" + name + ")", at=vp.site(b, "_dirty"))


case_same.over = NAMES


def case_nothing(name):
    """reading, and deleting what isn't set"""
    n = laid_out(CSS(), False)
    getattr(n.style, name)
    n.style[name]
    n.style.keys()
    n.style.items()
    str(n.style)
    n.style.copy()
    delattr(n.style, name)
    del n.style[name]
    for b in boxes(n):
        vp.prove(b.dirty is False, "reading a style, or deleting what isn't set, is no change")


case_nothing.over = NAMES + tuple(sorted(DIRECTIONAL))


def case_compound(k):
    """directional properties and shorthands"""
    name, old, new, changed = k
    s = CSS()
    if old is not None:
        setattr(s, name, old)
    n = laid_out(s, False)
    if new is None:
        delattr(n.style, name)
    else:
        setattr(n.style, name, new)
    for b in boxes(n):
        vp.prove(b.dirty is True or not changed, "a change of the style makes the layout invalid (" + name + ")", at=vp.site(b, "_dirty"))


def compound():
    out = []
    a, b = vp.integer("a", 1, 50), vp.integer("b", 51, 100)
    for name in ("margin", "padding", "border_width"):
        out += [(name, None, a, True), (name, a, b, True), (name, a, None, True), (name, (a, b), (a, b, a, a), True), (name, (a, a, a, b), (a, a, a, a), True), (name, (a, a, b, a), (a,), True),
                (name, (b, a), a, True), (name, (1, 2, 3, 4), (1, 2, 3, 5), True), (name, (1, 2, 3, 4), (5, 2, 3, 4), True), (name, (1, 2, 3, 4), (1, 5, 3, 4), True)]
    for name in ("border_style",):
        out += [(name, None, "solid", True), (name, "solid", ("solid", "solid", "solid", "dotted"), True), (name, "solid", None, True)]
    for name in sorted(SHORTHAND):
        out += [(name, None, "thin solid red", True), (name, "thin solid red", "thin dotted red", True), (name, "thin solid red", "thin", True), (name, "thin solid", "thick solid", True), (name, "thin solid red", None, True)]
    return out


case_compound.over = compound()


def case_copy():
    """the copy of a style belongs to the node it was made for"""
    s = CSS(width=3)
    a = laid_out(s, False)
    b = laid_out(s, False)
    a.style.width = vp.integer("w", 4, 50)
    vp.prove(a.layout.dirty is True, "a change of the style makes the layout invalid (width)")
    vp.prove(b.layout.dirty is False and b.style.dirty is False, "changing a copy doesn't concern the node of another copy")
    vp.prove(s.dirty is None, "a style without a node has no layout")
    s.width = vp.integer("w", 4, 50)
    vp.prove(b.layout.dirty is False, "changing the original doesn't concern the node of a copy")


def case_among(k):
    """whatever other properties are"""
    name, how = k
    s = CSS()
    if how != "first":
        setattr(s, name, first(name))
    n = laid_out(s, False)
    old = getattr(n.style, name)
    opened(n.style, n, (name, "color", "direction") if P[name][2] == DYNAMIC else (name,))
    if how == "delete":
        delattr(n.style, name)
    else:
        setattr(n.style, name, second(name))
    new = getattr(n.style, name)
    if not equal(old, new):
        for b in boxes(n):
            vp.prove(b.dirty is True, "a change of the style makes the layout invalid, whatever other properties are (" + name + ")", at=vp.site(b, "_dirty"))


def first(name):
    return EVERY[name][-1]


def second(name):
    """another value"""
    return vp.choose("second", EVERY[name][:-1]) if len(EVERY[name]) > 1 else "blue" if name == "color" else 30


case_among.over = [(n, h) for n in NAMES for h in ("set", "first", "delete")]
