"""Relative positioning (CSS 2.1, 9.4.3): a box is moved from its place in the flow, and nothing else is"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node, replaced, text


GEOMETRY = ("content_width", "content_height", "padding_top", "padding_right", "padding_bottom", "padding_left",
            "border_top_width", "border_right_width", "border_bottom_width", "border_left_width",
            "margin_top", "margin_right", "margin_bottom", "margin_left")


def px(v):
    return v.val if hasattr(v, "val") else v


def offsets(k):
    """(the style, the displacement to the right, the displacement down)"""
    s, d = {}, [0, 0]
    for i, (kind, near, far) in enumerate(((k[0], "left", "right"), (k[1], "top", "bottom"))):
        if kind in ("near", "both"):
            s[near] = vp.integer(near, -500, 500)
            d[i] = s[near]
        if kind in ("far", "both"):
            s[far] = vp.integer(far, -500, 500)
            if kind == "far":
                d[i] = -s[far]
    return s, d[0], d[1]


def edge(name):
    return {"padding_top": vp.integer(name + "padding_top", 1, 50), "border_top_width": vp.integer(name + "border_top", 1, 50)}


def tree(where, kind, extra, **pos):
    """a document of three blocks, one of which is positioned"""
    kid = node(display="block", height=7)
    s = dict(margin_top=11, margin_bottom=13, margin_left=3, **extra)
    s.update(pos)
    if kind == "block":
        target = node(kid, display="block", height=vp.integer("height", 1, 200), **s)
    elif kind == "auto":
        target = node(kid, display="block", **s)
    elif kind == "replaced":
        target = replaced(vp.integer("iw", 0, 100), vp.integer("ih", 0, 100), None, display="inline", **s)
        kid = None
    else:
        target = text(vp.integer("iw", 0, 100), vp.integer("ih", 0, 100), display="inline", **s)
        kid = None
    if kind in ("block", "auto"):
        others = [node(display="block", height=20, margin_top=5), node(display="block", height=30, margin_bottom=9)]
    else:
        others = [text(5, 6, display="inline"), text(8, 9, display="inline")]
    kids = list(others)
    kids.insert(where, target)
    parent = node(*kids, display="block", padding_left=4)
    after = node(display="block", height=2)
    root = node(parent, after, display="block")
    return root, parent, after, target, kid, others


def compare(k, extra):
    where, kind = k[2], k[3]
    s, dx, dy = offsets(k)
    r0, p0, a0, t0, k0, o0 = tree(where, kind, extra)
    r1, p1, a1, t1, k1, o1 = tree(where, kind, extra, position="relative", **s)
    if len(k) > 4:
        t0.style.direction = t1.style.direction = k[4]
        p0.style.direction = p1.style.direction = k[5]
    layout(Display(), r0)
    layout(Display(), r1)
    for name in GEOMETRY:
        vp.prove(getattr(t1.layout, name) == getattr(t0.layout, name), "the size and the edges of the box are those of the static box", at=vp.site(t1.layout, name))
    twice = px(t1.style.border_top_width) + px(t1.style.padding_top) + (11 if kind in ("replaced", "text") else 0)
    want = -s["right"] if len(k) > 4 and k[5] == "rtl" and k[0] == "both" else dx
    vp.prove(t1.layout.content_left == t0.layout.content_left + want, "the box is moved horizontally by its offset", at=vp.site(t1.layout, "content_left"),
             known=("right-offset-in-rtl", lambda: t1.layout.content_left == t0.layout.content_left + dx))
    vp.prove(t1.layout.content_top == t0.layout.content_top + dy, "the box is moved vertically by its offset", at=vp.site(t1.layout, "content_top"),
             known=("relative-top-edges-twice", lambda: twice != 0 and t1.layout.content_top == t0.layout.content_top + dy + twice))
    if k1 is not None:
        vp.prove(k1.layout.content_top == k0.layout.content_top and k1.layout.content_left == k0.layout.content_left,
                 "the children of the box keep their place in it", at=vp.site(k1.layout, "content_top"))
        vp.prove(k1.layout.absolute_content_top - t1.layout.absolute_content_top == k0.layout.absolute_content_top - t0.layout.absolute_content_top
                 and k1.layout.absolute_content_left - t1.layout.absolute_content_left == k0.layout.absolute_content_left - t0.layout.absolute_content_left,
                 "the children of the box move with it", at=vp.site(k1.layout, "content_top"))
    for x0, x1 in zip(o0, o1):
        vp.prove(x1.layout.content_top == x0.layout.content_top and x1.layout.content_left == x0.layout.content_left,
                 "the siblings stay where they are", at=vp.site(x1.layout, "content_top"))
    moved = t1.layout.content_top - t0.layout.content_top
    vp.prove(p1.layout.content_height == p0.layout.content_height, "the height of the parent doesn't depend on the offset", at=vp.site(p1.layout, "content_height"),
             known=("relative-last-child-height", lambda: where == 2 and p1.layout.content_height == p0.layout.content_height + moved))
    vp.prove(p1.layout.content_top == p0.layout.content_top and p1.layout.content_left == p0.layout.content_left
             and p1.layout.content_width == p0.layout.content_width, "the parent stays where it is")


def case_plain(k):
    compare(k, {})


H = ("none", "near", "far", "both")
case_plain.over = [(h, v, w, kind) for h in H for v in H for w in (0, 1, 2) for kind in ("block",)] + [
    (h, v, 0, kind) for h in H for v in H for kind in ("auto", "replaced", "text")]


def case_edges(k):
    compare(k, edge("t_"))


case_edges.over = [("near", v, w, kind) for v in H for w in (0, 2) for kind in ("block", "auto", "replaced", "text")]


def case_rtl(k):
    compare(k, {})


case_rtl.over = [(h, "near", 1, "block", d, e) for h in H for d in ("ltr", "rtl") for e in ("ltr", "rtl")]


def case_static(k):
    """the offsets of a box that isn't positioned have no effect"""
    kind, where = k
    s, _, _ = offsets(("both", "both"))
    r0, p0, a0, t0, k0, o0 = tree(where, kind, edge("t_"))
    r1, p1, a1, t1, k1, o1 = tree(where, kind, edge("t_"), **s)
    layout(Display(), r0)
    layout(Display(), r1)
    for x0, x1 in [(t0, t1), (p0, p1), (a0, a1)] + list(zip(o0, o1)):
        vp.prove(x1.layout.content_left == x0.layout.content_left and x1.layout.content_top == x0.layout.content_top,
                 "the offsets of a static box have no effect", at=vp.site(x1.layout, "content_left"))
        for name in GEOMETRY:
            vp.prove(getattr(x1.layout, name) == getattr(x0.layout, name), "the offsets of a static box have no effect", at=vp.site(x1.layout, name))


case_static.over = [(kind, w) for kind in ("block", "auto", "replaced", "text") for w in (0, 2)]


def case_percent(k):
    """percentages refer to the width (left, right) and the height (top, bottom) of the container"""
    W = vp.integer("W", 1, 20) * 100
    Hc = vp.integer("H", 1, 20) * 100
    near, far = k
    for name in (near, far):
        t = node(display="block", height=10, position="relative", **{name: "25%"})
        parent = node(t, display="block", width=W, height=Hc)
        root = node(parent, display="block")
        layout(Display(width=2500), root)
        sign = 1 if name == near else -1
        # the height of a container isn't known while its children are laid out
        if near == "left":
            vp.prove(t.layout.content_left == sign * W // 4, "a percentage of the container's width", at=vp.site(t.layout, "content_left"))
        else:
            vp.prove(t.layout.content_top == sign * Hc // 4, "a percentage of the container's height", at=vp.site(t.layout, "content_top"),
                     known=("relative-percentage-height", lambda: t.layout.content_top == 0))


case_percent.over = [("left", "right"), ("top", "bottom")]


def case_inherit(k):
    """inherited offsets are accepted"""
    root = node(node(display="block", height=10, position="relative", **k), display="block", height=100)
    layout(Display(), root)
    vp.prove(root.children[0].layout.content_height == 10, "inherited offsets are accepted")


case_inherit.over = [{a: "inherit", b: v} for a, b in (("left", "right"), ("right", "left"), ("top", "bottom"), ("bottom", "top"))
                     for v in ("auto", "inherit", 5)]
