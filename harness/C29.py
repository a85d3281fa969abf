"""Block boxes in normal flow: stacking, collapsing margins, heights (CSS 2.1, 8.3.1, 9.4.1, 10.6.3, 10.7)"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node


def block(i, lo=1, height=True, *children, **more):
    """a block box with vertical edges"""
    s = {"margin_top": vp.integer("margin_top%s" % i, lo, 300), "margin_bottom": vp.integer("margin_bottom%s" % i, lo, 300)}
    s.update(more)
    if height:
        s["height"] = vp.integer("height%s" % i, 0, 1000)
    return node(*children, display="block", **s)


def edges(i):
    return {"padding_top": vp.integer("padding_top%s" % i, 1, 100), "padding_bottom": vp.integer("padding_bottom%s" % i, 1, 100),
            "border_top_width": vp.integer("border_top%s" % i, 1, 50), "border_bottom_width": vp.integer("border_bottom%s" % i, 1, 50)}


def px(v):
    """the number of pixels of a length of the style"""
    return v.val if hasattr(v, "val") else v


def inside(b, s):
    """the box of a leaf with an explicit height"""
    vp.prove(b.content_height == px(s.height), "an explicit height is used", at=vp.site(b, "content_height"))
    vp.prove(b.padding_top == px(s.padding_top) and b.padding_bottom == px(s.padding_bottom), "vertical paddings are used as specified", at=vp.site(b, "padding_top"))
    vp.prove(b.border_top_width == px(s.border_top_width) and b.border_bottom_width == px(s.border_bottom_width), "vertical borders are used as specified", at=vp.site(b, "border_top_width"))
    vp.prove(b.margin_top == px(s.margin_top) and b.margin_bottom == px(s.margin_bottom), "vertical margins are used as specified", at=vp.site(b, "margin_top"))


def stack(parent, kids):
    """the children are stacked from the top of the content box"""
    top = 0
    last = None
    for c in kids:
        b = c.layout
        if last is not None:
            top = last.border_box_bottom + max(px(last.node.style.margin_bottom), px(c.style.margin_top))
            vp.prove(b.border_box_top == top, "siblings are separated by the larger of the adjoining margins", at=vp.site(b, "content_top"))
        else:
            # the top margin of the first child collapses with the parent's, unless an edge separates them
            want = px(c.style.margin_top) if parent.style.padding_top != 0 or parent.style.border_top_width != 0 else 0
            vp.prove(b.border_box_top == want, "the first child starts at the top of the content box", at=vp.site(b, "content_top"),
                     known=("first-child-margin-below-an-edge", lambda: b.border_box_top == 0))
        vp.prove(b.border_box_bottom - b.border_box_top == b.border_box_height, "the border box spans the edges and the content", at=vp.site(b, "content_top"))
        last = b
    if parent.style.height == "auto":
        vp.prove(parent.layout.content_height == last.border_box_bottom, "an auto height ends at the last child", at=vp.site(parent.layout, "content_height"))


def case_stack(k):
    n, edge, lo, pedge = k
    kids = [block(i, lo, True, **(edges(i) if edge else {})) for i in range(n)]
    parent = node(*kids, display="block", **(edges("p") if pedge else {}))
    root = node(parent, display="block")
    layout(Display(), root)
    for c in kids:
        inside(c.layout, c.style)
    stack(parent, kids)
    vp.prove(parent.layout.border_box_top == 0, "the first child starts at the top of the content box")
    # the margins of the first and last child are part of the parent's margins
    first, last = px(kids[0].style.margin_top), px(kids[-1].style.margin_bottom)
    vp.prove(parent.layout.collapse_top == (0 if pedge else first), "the top margin of the first child extends the parent's", at=vp.site(parent.layout, "collapse_top"),
             known=("first-child-margin-below-an-edge", lambda: parent.layout.collapse_top == first))
    vp.prove(parent.layout.collapse_bottom == (0 if pedge else last), "the bottom margin of the last child extends the parent's", at=vp.site(parent.layout, "collapse_bottom"),
             known=("last-child-margin-above-an-edge", lambda: parent.layout.collapse_bottom == last))


case_stack.over = [(1, True, 1, False), (2, True, 1, False), (2, True, 1, True), (2, False, 0, False), (3, False, 1, False), (4, False, 1, False)]
case_stack.more = case_stack.over + [(3, True, 1, False), (3, False, 0, False), (5, False, 1, False)]


def case_nested():
    """margins of first and last descendants collapse through their ancestors"""
    a1, a2 = block("a1"), block("a2")
    b1 = block("b1")
    a = block("a", 1, False, a1, a2)
    b = block("b", 1, False, b1)
    root = node(a, b, display="block")
    layout(Display(), root)
    stack(a, [a1, a2])
    stack(b, [b1])
    s = lambda n, side: px(getattr(n.style, "margin_" + side))  # noqa
    vp.prove(a.layout.collapse_top == max(s(a, "top"), s(a1, "top")), "the top margin of the first child extends the parent's")
    vp.prove(a.layout.collapse_bottom == max(s(a, "bottom"), s(a2, "bottom")), "the bottom margin of the last child extends the parent's")
    gap = max(s(a, "bottom"), s(a2, "bottom"), s(b, "top"))
    vp.prove(b.layout.border_box_top == a.layout.border_box_bottom + max(gap, s(b1, "top")), "siblings are separated by the largest of the adjoining margins",
             at=vp.site(b.layout, "content_top"),
             known=("first-child-margin-of-later-sibling", lambda: b.layout.border_box_top == a.layout.border_box_bottom + gap))


def case_height(k):
    """explicit heights; max-height"""
    s = {}
    h = vp.integer("h", 0, 1000)
    if k[0] == "max":
        m = vp.integer("m", 0, 1000)
        s["max_height"] = m
        want = min(h, m)
    else:
        want = h
    kids = [block(i) for i in range(k[1])]
    n = node(*kids, display=k[2], height=h, **s, **edges(""))
    root = node(n, display="block")
    layout(Display(), root)
    b = n.layout
    vp.prove(b.content_height == want, "an explicit height is used, limited by max-height", at=vp.site(b, "content_height"))
    vp.prove(b.collapse_bottom == 0, "with an explicit height, the last child's margin stays inside", at=vp.site(b, "collapse_bottom"))
    if kids:
        stack(n, kids)
    after = node(display="block", height=5)
    n2 = node(display="block", height=h, **s)
    r2 = node(n2, after, display="block")
    layout(Display(), r2)
    vp.prove(after.layout.border_box_top == want, "the next sibling follows an explicit height", at=vp.site(after.layout, "content_top"))


case_height.over = [(m, n, d) for m in ("", "max") for n in (0, 1) for d in ("block", "list-item", "table")]


def case_empty(k):
    """an empty block with auto height"""
    s = {}
    want = 0
    if k == "min":
        s["min_height"] = want = vp.integer("m", 0, 1000)
    n = node(display="block", **s, **edges(""))
    root = node(n, display="block")
    layout(Display(), root)
    vp.prove(n.layout.content_height == want, "an empty block is as high as its min-height", at=vp.site(n.layout, "content_height"))


case_empty.over = ["", "min"]


def case_auto_margins():
    """auto vertical margins are 0"""
    a = node(display="block", height=vp.integer("h", 0, 100), margin_top="auto", margin_bottom="auto")
    b = node(display="block", height=10, margin_top=vp.integer("m", 1, 100))
    parent = node(a, b, display="block")
    root = node(parent, display="block")
    layout(Display(), root)
    vp.prove(a.layout.margin_top == 0 and a.layout.margin_bottom == 0, "auto vertical margins are 0", at=vp.site(a.layout, "margin_top"))
    vp.prove(b.layout.border_box_top == a.layout.border_box_bottom + px(b.style.margin_top), "siblings are separated by the larger of the adjoining margins")


def case_fractional():
    """margins that aren't whole pixels collapse in the same way"""
    m = vp.real("m", 0, 100)
    q = vp.real("q", 0, 100)
    a = node(display="block", height=20, margin_bottom=m)
    b = node(display="block", height=10, margin_top=q)
    parent = node(a, b, display="block")
    root = node(parent, display="block")
    layout(Display(), root)
    vp.prove(b.layout.border_box_top == a.layout.border_box_bottom + max(a.layout.margin_bottom, b.layout.margin_top),
             "siblings are separated by the larger of the adjoining margins", at=vp.site(b.layout, "content_top"))
    last = node(display="block", height=10, margin_bottom=m)
    p2 = node(last, display="block", margin_bottom=q)
    r2 = node(p2, display="block")
    layout(Display(), r2)
    vp.prove(p2.layout.collapse_bottom == max(last.layout.margin_bottom, p2.layout.margin_bottom),
             "the bottom margin of the last child extends the parent's", at=vp.site(p2.layout, "collapse_bottom"))
