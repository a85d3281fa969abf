"""Inline boxes that aren't replaced: the size is the intrinsic one (CSS 2.1, 10.3.1 and 10.6.1)"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node, text


def case_text(k):
    wk, hk, parent = k
    iw, ih = vp.integer("iw", 0, 1000), vp.integer("ih", 0, 1000)
    s = {}
    if wk:
        s["width"] = vp.integer("width", 0, 1000)
    if hk:
        s["height"] = vp.integer("height", 0, 1000)
    for side in ("top", "right", "bottom", "left"):
        s["padding_" + side] = vp.integer("padding_" + side, 1, 100)
        s["border_" + side + "_width"] = vp.integer("border_" + side, 1, 50)
        s["margin_" + side] = vp.choose("margin_" + side + "_kind", "auto", vp.integer("margin_" + side, 1, 200))
    n = text(iw, ih, display="inline", **s)
    if parent == "block":
        root = node(n, display="block")
    elif parent == "text":
        outer = text(5, 6, display="inline")
        outer.children.append(n)
        n.parent = outer
        root = node(outer, display="block")
    else:
        root = node(text(3, 4, display="inline"), n, text(1, 2, display="inline"), display="block")
    layout(Display(), root)
    b = n.layout
    m = {side: 0 if s["margin_" + side] == "auto" else s["margin_" + side] for side in ("top", "right", "bottom", "left")}
    vp.prove(b.content_width == iw, "the width is the intrinsic width", at=vp.site(b, "content_width"))
    vp.prove(b.content_height == ih, "the height is the intrinsic height", at=vp.site(b, "content_height"))
    vp.prove(b.margin_left == m["left"] and b.margin_right == m["right"], "horizontal margins: auto is 0", at=vp.site(b, "margin_left"))
    vp.prove(b.margin_top == m["top"] and b.margin_bottom == m["bottom"], "vertical margins: auto is 0", at=vp.site(b, "margin_top"))
    for side in ("top", "right", "bottom", "left"):
        vp.prove(getattr(b, "padding_" + side) == s["padding_" + side] and getattr(b, "border_" + side + "_width") == s["border_" + side + "_width"],
                 "paddings and borders are used as specified", at=vp.site(b, "padding_" + side))
    vp.prove(b.content_top == m["top"] + s["border_top_width"] + s["padding_top"], "the content starts below the top edges", at=vp.site(b, "content_top"))
    vp.prove(b.content_left == m["left"] + s["border_left_width"] + s["padding_left"], "the content starts after the left edges", at=vp.site(b, "content_left"))


case_text.over = [(w, h, p) for w in (False, True) for h in (False, True) for p in ("block", "text", "line")]
