"""A box knows whether its layout is up to date"""
import vp
from colosseum.dimensions import Box, Size
from spec.common import CSS, node
from spec.geometry import walk

VALUES = (True, False, None)


def tree():
    """the boxes may be visible or not"""
    root = plain()
    for i, n in enumerate(walk(root)):
        if n.layout is not None:
            n.layout.visible = vp.integer("visible%d" % i, 0, 1) == 1
    return root


def plain():
    deep = node(node(), node())
    bare = node(node())
    bare.layout = None
    return node(deep, bare, node())


def case_down(k):
    """the state of a box is given to everything in it"""
    first, second, index = k
    root = tree()
    nodes = [n for n in walk(root)]
    root.layout.dirty = first
    target = [n for n in nodes if n.layout is not None][index]
    before = {id(n): n.layout.dirty for n in nodes if n.layout is not None}
    target.layout.dirty = second
    vp.prove(target.layout.dirty is second, "the state of a box is the one that was set", at=vp.site(target.layout, "_dirty"))
    inside = seen(target)
    for n in nodes:
        if n.layout is None:
            continue
        if n in inside:
            vp.prove(n.layout.dirty is second, "the state is given to all boxes inside", at=vp.site(n.layout, "_dirty"))
        elif n in seen(root):
            vp.prove(n.layout.dirty is before[id(n)], "the state of other boxes is unaffected", at=vp.site(n.layout, "_dirty"))


def seen(n):
    """the boxes inside of a box that can be reached through displayed ones"""
    out = [n]
    for c in n.children:
        if c.layout is not None:
            out.extend(seen(c))
    return out


case_down.over = [(a, b, i) for a in VALUES for b in VALUES for i in (0, 1, 2, 3)]


ATTRS = ("width", "height", "ratio", "exact_width", "exact_height", "is_replaced")


def case_size(k):
    """the intrinsic size: a change makes the layout invalid, anything else doesn't"""
    attr, kind, state = k
    n = node(node())
    if attr in ("width", "height", "ratio"):
        if kind == "none":
            old, new = None, vp.integer("new", 0, 1000)
        elif kind == "gone":
            old, new = vp.integer("old", 0, 1000), None
        elif kind == "nothing":
            old, new = None, None
        else:
            old, new = vp.integer("old", 0, 1000), vp.integer("new", 0, 1000)
    else:
        old = vp.choose("old", True, False)
        new = vp.choose("new", True, False)
    setattr(n.intrinsic, attr, old)
    n.layout.dirty = state
    setattr(n.intrinsic, attr, new)
    vp.prove(getattr(n.intrinsic, attr) == new, "an intrinsic size is the last one that was set", at=vp.site(n.intrinsic, "_" + attr))
    want = True if old != new else state
    vp.prove(n.layout.dirty is want, "a change of the intrinsic size, and nothing else, makes the layout invalid", at=vp.site(n.layout, "_dirty"))
    vp.prove(n.intrinsic.dirty is want, "an intrinsic size knows whether the layout is valid")
    vp.prove(n.children[0].layout.dirty is want, "the state is given to all boxes inside")
    for other in ATTRS:
        if other != attr:
            vp.prove(getattr(n.intrinsic, other) == getattr(node().intrinsic, other), "the other attributes of the size are unaffected")


case_size.over = [(a, kind, s) for a in ATTRS for kind in ("number", "none", "gone", "nothing") for s in (False, None)
                  if kind == "number" or a in ("width", "height", "ratio")]


def case_proxy(k):
    """the style and the intrinsic size report and set the state of the layout"""
    n = node(node())
    n.layout.dirty = k[0]
    vp.prove(n.style.dirty is k[0] and n.intrinsic.dirty is k[0], "the style and the intrinsic size know the state of the layout")
    n.style.dirty = k[1]
    vp.prove(n.layout.dirty is k[1] and n.children[0].layout.dirty is k[1], "the state set through the style is the layout's")
    n.intrinsic.dirty = k[0]
    vp.prove(n.layout.dirty is k[0] and n.children[0].layout.dirty is k[0], "the state set through the intrinsic size is the layout's")


case_proxy.over = [(a, b) for a in VALUES for b in VALUES]


def case_no_layout(k):
    """a style that belongs to no node, or to a node without a box, has no state"""
    if k == "free":
        s = CSS(width=vp.integer("width", 1, 500))
        other = None
    elif k == "copy":
        n = node(width=vp.integer("width", 1, 500))
        s = n.style.copy()
        other = n.layout
        other.dirty = False
    else:
        n = node(width=vp.integer("width", 1, 500))
        n.layout = None
        s, other = n.style, None
        vp.prove(not n.intrinsic.dirty, "without a box there is no state")
        n.intrinsic.dirty = True
        vp.prove(not n.intrinsic.dirty, "without a box there is no state")
    vp.prove(not s.dirty, "without a box there is no state")
    s.dirty = True
    vp.prove(not s.dirty, "without a box there is no state")
    vp.prove(other is None or other.dirty is False, "the state of a style without a node concerns no box")


case_no_layout.over = ("free", "copy", "hidden")


def case_size_defaults():
    s = node().intrinsic
    vp.prove(s.width is None and s.height is None and s.ratio is None, "a new intrinsic size is unknown")
    vp.prove(s.exact_width is True and s.exact_height is True and s.is_replaced is False, "a new intrinsic size is exact and not replaced")


def case_layout(k):
    """geometry doesn't change the state of a layout"""
    n = node(node())
    n.layout.dirty = k
    n.layout.content_top = vp.integer("top", -100, 100)
    n.layout.content_left = vp.integer("left", -100, 100)
    n.layout.margin_top = vp.integer("margin", -100, 100)
    n.layout.content_width = vp.integer("width", 0, 100)
    vp.prove(n.layout.dirty is k and n.children[0].layout.dirty is k, "setting the geometry of a box doesn't change the state")


case_layout.over = VALUES
