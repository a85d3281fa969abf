"""Positions are relative to the parent: moving a box moves everything in it"""
import vp
from colosseum.dimensions import Box
from spec.common import node
from spec.geometry import walk


def num(name):
    return vp.integer(name, -1000, 1000)


def tree(shape):
    """the boxes may be visible or not"""
    root = plain(shape)
    for i, n in enumerate(walk(root)):
        if n.layout is not None:
            n.layout.visible = vp.integer("visible%d" % i, 0, 1) == 1
    return root


def plain(shape):
    if shape == "chain":
        c = node()
        b = node(c)
        a = node(b)
        return node(a)
    if shape == "wide":
        return node(node(node(), node()), node(), node(node()))
    if shape == "hidden":
        x = node(node())
        y = node(x, node())
        x.layout = None
        return node(y, node())


def consistent(n, label, top=0, left=0):
    """absolute = the parent's absolute position + the position in the parent"""
    b = n.layout
    if b is None:
        return
    vp.prove(b.absolute_content_top == top + b.content_top, label + " (top)", at=vp.site(b, "content_top"))
    vp.prove(b.absolute_content_left == left + b.content_left, label + " (left)", at=vp.site(b, "content_left"))
    vp.prove(b.absolute_content_bottom == top + b.content_top + b.content_height, label + " (bottom)")
    vp.prove(b.absolute_content_right == left + b.content_left + b.content_width, label + " (right)")
    for c in n.children:
        consistent(c, label, b.absolute_content_top, b.absolute_content_left)


def displayed(n):
    """the nodes that have a box, and are in one"""
    out = [n]
    for c in n.children:
        if c.layout is not None:
            out.extend(displayed(c))
    return out


LABEL = "a box is at its parent's absolute position plus its own"


def case_set(k):
    """any box gets any position, in any order"""
    shape, order = k
    root = tree(shape)
    nodes = walk(root)
    step = 0
    for i in order:
        b = nodes[i].layout
        step = step + 1
        b.content_top = num("top%d" % step)
        consistent(root, LABEL)
        b.content_left = num("left%d" % step)
        consistent(root, LABEL)
        vp.prove(b.content_top == num("top%d" % step) and b.content_left == num("left%d" % step), "a position is kept")


case_set.over = [("chain", o) for o in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (0, 0, 1, 1), (2, 0, 2, 3))] + [
    ("wide", o) for o in ((0, 1, 4), (1, 2, 0), (5, 6, 0, 5))] + [("hidden", o) for o in ((0, 1, 4), (1, 0, 5))]
case_set.more = case_set.over + [("chain", (a, b, c, d)) for a in range(4) for b in range(4) for c in range(4) for d in range(4)]


def case_add():
    """increments, as a layout uses them"""
    root = tree("chain")
    for i, n in enumerate(walk(root)):
        n.layout.content_top += num("t%d" % i)
        n.layout.content_left += num("l%d" % i)
    for i, n in enumerate(walk(root)):
        n.layout.content_top += num("u%d" % i)
    consistent(root, LABEL)
    vp.prove(root.layout.content_top == num("t0") + num("u0"), "increments add up")


def case_sizes():
    """changing a size or an edge moves nothing inside of the box"""
    root = tree("chain")
    for i, n in enumerate(walk(root)):
        n.layout.content_top = num("t%d" % i)
        n.layout.content_width = vp.integer("w%d" % i, 0, 100)
        n.layout.padding_left = vp.integer("p%d" % i, 0, 100)
        n.layout.border_top_width = vp.integer("b%d" % i, 0, 100)
        n.layout.margin_left = vp.integer("m%d" % i, -100, 100)
    consistent(root, LABEL)


def case_reset(k):
    """a reset brings the box and everything in it back to the start"""
    root = tree(k)
    for i, n in enumerate(walk(root)):
        if n.layout is not None:
            n.layout.content_top = num("t%d" % i)
            n.layout.content_left = num("l%d" % i)
    root.layout.reset()
    consistent(root, LABEL)
    for n in displayed(root):
        if n.layout is not None:
            vp.prove(n.layout.absolute_content_top == 0 and n.layout.absolute_content_left == 0, "a reset brings the box and everything in it back to the start")
    for i, n in enumerate(walk(root)):
        if n.layout is not None:
            n.layout.content_top = num("u%d" % i)
    consistent(root, LABEL)


case_reset.over = ["chain", "wide", "hidden"]


def case_new_box(k):
    """a box that is new in the tree is where its parent is as soon as that moves"""
    shape, which, first = k
    root = tree(shape)
    nodes = walk(root)
    if first:
        for i, n in enumerate(nodes):
            n.layout.content_top = num("t%d" % i)
            n.layout.content_left = num("l%d" % i)
    nodes[which].layout = Box(nodes[which])
    for n in nodes:
        if nodes[which] in n.children:
            for c in nodes[which].children:
                c.layout = Box(c)
            n.layout.content_top = n.layout.content_top + vp.integer("dt", 1, 100)
            n.layout.content_left = n.layout.content_left - vp.integer("dl", 1, 100)
            consistent(n, LABEL, n.layout.absolute_content_top - n.layout.content_top, n.layout.absolute_content_left - n.layout.content_left)


case_new_box.over = [(s, w, f) for s, ws in (("chain", (1, 2, 3)), ("wide", (1, 2, 3, 5))) for w in ws for f in (False, True)]


def case_laid_out(k):
    """after a layout, and after moving boxes then"""
    from colosseum.engine import layout
    from spec.common import Display, replaced, text
    pos = dict(position="relative", top=vp.integer("top", -100, 100), left=vp.integer("left", -100, 100)) if k == "relative" else {}
    c = node(display="block", height=vp.integer("h", 0, 100), margin_top=vp.integer("m", 0, 50), padding_left=vp.integer("p", 0, 50))
    d = node(display="block", height=4, margin_top=vp.integer("n", 0, 50))
    b = node(c, d, display="block", margin_left=vp.integer("q", 0, 50), padding_top=vp.integer("r", 1, 50), **pos)
    e = node(replaced(vp.integer("iw", 0, 50), 6, None, display="inline", margin_left=vp.integer("s", 0, 50)), display="block")
    root = node(b, e, display="block", margin_top=vp.integer("t", 0, 50))
    layout(Display(), root)
    consistent(root, LABEL)
    b.layout.content_top = num("move")
    consistent(root, LABEL)


case_laid_out.over = ["static", "relative"]
