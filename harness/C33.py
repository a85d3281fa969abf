"""Nodes that aren't displayed (display: none) take no part in the layout"""
import vp
from colosseum.engine import layout
from spec.common import Display, Node, node, replaced, text, CSS
from spec.geometry import same_box


def block(i):
    return node(display="block", height=vp.integer("height%s" % i, 0, 200), margin_top=vp.integer("top%s" % i, 1, 50),
                margin_bottom=vp.integer("bottom%s" % i, 1, 50), padding_top=3, border_left_width=2)


def inline(i):
    return replaced(vp.integer("w%s" % i, 0, 200), vp.integer("h%s" % i, 0, 200), None, display="inline", margin_top=4)


def hidden(kind):
    if kind == "leaf":
        n = node(height=50, margin_top=60, margin_bottom=70)
        n.style.display = None
        return n
    if kind == "none":
        return node(display="none", width=50)
    if kind == "tree":
        return node(node(display="block", height=5, position="absolute"), text(4, 5, display="inline"), display="none", position="relative", top=30)
    if kind == "odd":
        return node(display="none", float="left", position="absolute")
    if kind == "replaced":
        return replaced(10, 20, None, display="none")
    if kind == "bare":
        n = node(display="none")
        n.layout = None
        return n


KINDS = ("leaf", "none", "tree", "odd", "replaced", "bare")


def doc(make, n, holes, kind, style):
    """a parent with n visible children, and hidden ones before the given positions"""
    kids, gone = [], []
    seen = []
    for i in range(n + 1):
        for h in holes:
            if h == i:
                x = hidden(kind)
                kids.append(x)
                gone.append(x)
        if i < n:
            c = make(i)
            kids.append(c)
            seen.append(c)
    parent = node(*kids, display="block", **style)
    after = node(display="block", height=9, margin_top=1)
    root = node(parent, after, display="block")
    return root, [root, parent, after] + seen, gone


def case_hidden(k):
    what, n, holes, kind, style = k
    make = block if what == "block" else inline
    r0, v0, _ = doc(make, n, (), None, style)
    r1, v1, gone = doc(make, n, holes, kind, style)
    layout(Display(), r0)
    layout(Display(), r1)
    for x in gone:
        vp.prove(x.layout is None, "a hidden node has no box", at=vp.site(x, "layout"))
    for x0, x1 in zip(v0, v1):
        same_box(x1.layout, x0.layout, "the other boxes are laid out as if the hidden node didn't exist")


def table():
    out = []
    for what in ("block", "inline"):
        for kind in KINDS:
            for n, holes in ((0, (0,)), (1, (0,)), (1, (1,)), (2, (0, 1, 2)), (2, (2, 2))):
                for style in ({}, {"height": 40}):
                    out.append((what, n, holes, kind, style))
    return out


case_hidden.over = table()


def case_root(k):
    """a hidden root: nothing is laid out"""
    root = node(node(display="block", height=5))
    root.style.display = k[0]
    if k[1]:
        root.layout = None
    child = root.children[0]
    r = layout(Display(), root, *k[2])
    vp.prove(root.layout is None, "a hidden node has no box", at=vp.site(root, "layout"))
    vp.prove(r is None, "laying out a hidden document returns")


case_root.over = [(d, bare, std) for d in (None, "none") for bare in (False, True) for std in ((), ("html4",), ("html5",))]


def case_descendants():
    """hidden descendants at any depth"""
    h = vp.integer("h", 0, 100)
    leaf = node(display="block", height=h)
    deep = node(hidden("leaf"), leaf, hidden("tree"), display="block", padding_top=vp.integer("p", 1, 20))
    root = node(deep, hidden("none"), display="block")
    layout(Display(), root)
    b = deep.layout
    vp.prove(b.content_height == h, "the other boxes are laid out as if the hidden node didn't exist", at=vp.site(b, "content_height"))
    vp.prove(leaf.layout.absolute_content_top == b.padding_top, "the other boxes are laid out as if the hidden node didn't exist", at=vp.site(leaf.layout, "content_top"))


def case_style_of_hidden(k):
    """the style and the intrinsic size of a hidden node can be changed"""
    n = node(display="none")
    root = node(n, node(display="block", height=3), display="block")
    layout(Display(), root)
    n.style.margin_top = vp.integer("m", 1, 10)
    n.style.color = "red"
    del n.style.margin_top
    n.intrinsic.width = vp.integer("w", 1, 10)
    vp.prove(n.style.dirty is None and n.intrinsic.dirty is None, "the state of a hidden node's layout is unknown")
    layout(Display(), root)
    vp.prove(n.layout is None, "a hidden node has no box")


case_style_of_hidden.over = [0]
