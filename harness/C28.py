"""The width of block boxes in normal flow (CSS 2.1, 10.3.3 and 10.4)"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node


def kinds():
    out = []
    for ml in ("auto", "px"):
        for w in ("auto", "px"):
            for mr in ("auto", "px"):
                for direction in ("ltr", "rtl"):
                    out.append((ml, w, mr, direction))
    return out


def limits():
    out = []
    for ml, mr in (("auto", "auto"), ("auto", "px"), ("px", "auto"), ("px", "px")):
        for lim in ("max", "min", "both"):
            out.append((ml, "px", mr, "ltr", lim))
    out.append(("px", "px", "px", "rtl", "both"))
    return out


def used(kind, name, lo, hi):
    return "auto" if kind == "auto" else vp.integer(name, lo, hi)


def boxes(lo):
    s = {}
    for side in ("left", "right"):
        s["padding_" + side] = vp.integer("padding_" + side, lo, 300)
        s["border_" + side + "_width"] = vp.integer("border_" + side, lo, 100)
    return s


def equation(b, W, s, ml, mr, w, direction):
    """the constraint of 10.3.3 on the used values of the box"""
    pl, pr = s["padding_left"], s["padding_right"]
    bl, br = s["border_left_width"], s["border_right_width"]
    edges = pl + pr + bl + br
    vp.prove(b.padding_left == pl and b.padding_right == pr, "paddings are used as specified", at=vp.site(b, "padding_left"))
    vp.prove(b.border_left_width == bl and b.border_right_width == br, "borders are used as specified", at=vp.site(b, "border_left_width"))
    vp.prove(b.content_left == b.margin_left + bl + pl, "content starts after the left margin, border and padding", at=vp.site(b, "content_left"))
    if w == "auto":
        left = 0 if ml == "auto" else ml
        right = 0 if mr == "auto" else mr
        vp.prove(b.margin_left == left and b.margin_right == right, "auto width: auto margins are 0", at=vp.site(b, "margin_left"))
        vp.prove(b.content_width == W - edges - left - right, "auto width fills the containing block", at=vp.site(b, "content_width"))
        return
    vp.prove(b.content_width == w, "the specified width is used", at=vp.site(b, "content_width"))
    free = W - edges - w
    if ml == "auto" and mr == "auto":
        if free < 0:
            end(b, W, edges, w, 0, 0, direction)
        else:
            vp.prove(b.margin_left == b.margin_right, "both margins auto: the box is centred", at=vp.site(b, "margin_left"))
            rest = free - b.margin_left - b.margin_right
            vp.prove(0 <= rest and rest <= 1, "both margins auto: they fill the line up to one pixel", at=vp.site(b, "margin_left"))
        return
    if ml == "auto":
        if free - mr < 0:
            end(b, W, edges, w, 0, mr, direction)
        else:
            vp.prove(b.margin_right == mr and b.margin_left == free - mr, "left margin auto: it fills the line", at=vp.site(b, "margin_left"))
        return
    if mr == "auto":
        if free - ml < 0:
            end(b, W, edges, w, ml, 0, direction)
        else:
            vp.prove(b.margin_left == ml and b.margin_right == free - ml, "right margin auto: it fills the line", at=vp.site(b, "margin_right"))
        return
    end(b, W, edges, w, ml, mr, direction)


def end(b, W, edges, w, ml, mr, direction):
    """over-constrained: the margin at the end of the line is ignored"""
    if direction == "ltr":
        vp.prove(b.margin_left == ml, "over-constrained, ltr: the left margin is kept", at=vp.site(b, "margin_left"))
        vp.prove(b.margin_right == W - edges - w - ml, "over-constrained, ltr: the right margin is adjusted", at=vp.site(b, "margin_right"))
    else:
        vp.prove(b.margin_right == mr, "over-constrained, rtl: the right margin is kept", at=vp.site(b, "margin_right"))
        vp.prove(b.margin_left == W - edges - w - mr, "over-constrained, rtl: the left margin is adjusted", at=vp.site(b, "margin_left"))


def one(k, lo, width=None, **more):
    mlk, wk, mrk, direction = k[:4]
    s = boxes(lo)
    ml, mr = used(mlk, "margin_left", -500, 500), used(mrk, "margin_right", -500, 500)
    w = used(wk, "width", 0, 3000)
    n = node(width=w, margin_left=ml, margin_right=mr, direction=direction, **s, **more)
    return n, s, ml, mr, w, direction


def case_root(k):
    """the root of the document: the containing block is the display"""
    W = vp.integer("W", 0, 3000)
    n, s, ml, mr, w, direction = one(k, 1, display=k[4])
    layout(Display(width=W), n)
    equation(n.layout, W, s, ml, mr, w, direction)


case_root.over = [k + ("block",) for k in kinds()]
case_root.more = [k + (d,) for k in kinds() for d in ("block", "list-item", "table")]


def case_plain(k):
    """no padding, no border: the values a style doesn't store"""
    W = vp.integer("W", 0, 3000)
    ml, mr = used(k[0], "margin_left", -500, 500), used(k[2], "margin_right", -500, 500)
    w = used(k[1], "width", 0, 3000)
    n = node(width=w, margin_left=ml, margin_right=mr, direction=k[3], display=k[4])
    layout(Display(width=W), n)
    zero = {"padding_left": 0, "padding_right": 0, "border_left_width": 0, "border_right_width": 0}
    equation(n.layout, W, zero, ml, mr, w, k[3])


case_plain.over = [k + (d,) for k in kinds() for d in ("block", "list-item", "table")]


def case_child(k):
    """a child: the containing block is the content box of its parent"""
    W = vp.integer("W", 0, 3000)
    n, s, ml, mr, w, direction = one(k, 1, display="block")
    first = node(display="block", height=10)
    parent = node(first, n, display="block", width=W, padding_left=vp.integer("parent_padding", 1, 50),
                  margin_left=vp.integer("parent_margin", 1, 50))
    layout(Display(width=vp.integer("D", 0, 3000)), parent)
    vp.prove(parent.layout.content_width == W, "the parent's content box has the specified width")
    equation(n.layout, W, s, ml, mr, w, direction)


case_child.over = kinds()


def case_grandchild(k):
    W = vp.integer("W", 1, 3000)
    n, s, ml, mr, w, direction = one(k, 1, display="block")
    mid = node(n, display="block", padding_left=7, border_right_width=3)
    root = node(mid, display="block")
    layout(Display(width=W), root)
    equation(n.layout, W - 10, s, ml, mr, w, direction)


case_grandchild.over = kinds()
case_grandchild.thorough = True


def clamp(w, lo, hi):
    if hi is not None and w > hi:
        w = hi
    if lo is not None and w < lo:
        w = lo
    return w


def case_limits(k):
    """10.4: an explicit width is limited by max-width, then by min-width"""
    W = vp.integer("W", 0, 3000)
    lim = {}
    lo = hi = None
    if k[4] in ("max", "both"):
        hi = lim["max_width"] = vp.integer("max_width", 0, 3000)
    if k[4] in ("min", "both"):
        lo = lim["min_width"] = vp.integer("min_width", 0, 3000)
    n, s, ml, mr, w, direction = one(k, 1, display="block", **lim)
    layout(Display(width=W), n)
    equation(n.layout, W, s, ml, mr, clamp(w, lo, hi), direction)


case_limits.over = limits()


def case_fractional(k):
    """lengths that aren't whole pixels: the equation still holds"""
    W = vp.integer("W", 0, 3000)
    ml = "auto" if k[0] == "auto" else vp.real("margin_left", 0, 500)
    mr = "auto" if k[2] == "auto" else vp.real("margin_right", 0, 500)
    w = "auto" if k[1] == "auto" else vp.real("width", 0, 3000)
    n = node(display="block", width=w, margin_left=ml, margin_right=mr, direction=k[3],
             padding_left=vp.real("padding_left", 0, 300), border_right_width=vp.real("border_right", 0, 100))
    layout(Display(width=W), n)
    b = n.layout
    total = b.margin_left + b.border_left_width + b.padding_left + b.content_width + b.padding_right + b.border_right_width + b.margin_right
    if k[0] == "auto" and k[2] == "auto" and k[1] != "auto":
        vp.prove(W - 2 <= total and total <= W, "fractional: the widths fill the containing block up to one pixel per margin", at=vp.site(b, "margin_left"))
    else:
        vp.prove(total == W, "fractional: the widths add up to the containing block", at=vp.site(b, "margin_left"))
    vp.prove(b.content_left == b.margin_left + b.border_left_width + b.padding_left, "fractional: content starts after the left margin, border and padding", at=vp.site(b, "content_left"))


case_fractional.over = kinds()
