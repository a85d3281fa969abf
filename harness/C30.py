"""Replaced inline boxes: sizes from the style, the intrinsic size and the ratio (CSS 2.1, 10.3.2 and 10.6.2)"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node, replaced


def kinds():
    out = []
    for w in ("auto", "px"):
        for h in ("auto", "px"):
            for iw in (False, True):
                for ih in (False, True):
                    for ratio in (False, True):
                        out.append((w, h, iw, ih, ratio))
    return out


def case_size(k):
    wk, hk, iwk, ihk, rk = k
    W = vp.integer("W", 0, 2000)
    w = "auto" if wk == "auto" else vp.integer("width", 0, 1000)
    h = "auto" if hk == "auto" else vp.integer("height", 0, 1000)
    iw = vp.integer("intrinsic_width", 0, 1000) if iwk else None
    ih = vp.integer("intrinsic_height", 0, 1000) if ihk else None
    ratio = vp.real("ratio", 0.1, 10) if rk else None
    e = {}
    for side in ("top", "right", "bottom", "left"):
        e["padding_" + side] = vp.integer("padding_" + side, 1, 100)
        e["border_" + side + "_width"] = vp.integer("border_" + side, 1, 50)
        e["margin_" + side] = vp.choose("margin_" + side + "_kind", "auto", vp.integer("margin_" + side, 1, 200))
    n = replaced(iw, ih, ratio, display="inline", width=w, height=h, **e)
    root = node(n, display="block")
    layout(Display(width=W), root)
    b = n.layout
    ml = 0 if e["margin_left"] == "auto" else e["margin_left"]
    mt = 0 if e["margin_top"] == "auto" else e["margin_top"]
    mr = 0 if e["margin_right"] == "auto" else e["margin_right"]
    mb = 0 if e["margin_bottom"] == "auto" else e["margin_bottom"]
    vp.prove(b.margin_left == ml and b.margin_right == mr, "horizontal margins: auto is 0", at=vp.site(b, "margin_left"))
    vp.prove(b.margin_top == mt and b.margin_bottom == mb, "vertical margins: auto is 0", at=vp.site(b, "margin_top"))
    vp.prove(b.content_left == ml + e["border_left_width"] + e["padding_left"], "the content starts after the left edges", at=vp.site(b, "content_left"))
    vp.prove(b.content_top == mt + e["border_top_width"] + e["padding_top"], "the content starts below the top edges", at=vp.site(b, "content_top"))

    at = vp.site(b, "content_width")
    line = W - ml - mr - e["padding_left"] - e["padding_right"] - e["border_left_width"] - e["border_right_width"]
    if w != "auto":
        vp.prove(b.content_width == w, "the specified width is used", at=at)
    elif h == "auto" and iw is not None:
        vp.prove(b.content_width == iw, "the intrinsic width is used", at=at)
    elif h == "auto" and ih is not None and ratio is not None:
        vp.prove(b.content_width == round(ih * ratio), "the width follows from the intrinsic height and the ratio", at=at)
    elif h != "auto" and ratio is not None:
        plain = iw if iw is not None else 300
        vp.prove(b.content_width == h * ratio, "the width follows from the specified height and the ratio", at=at,
                 known=("ratio-of-specified-height", lambda: b.content_width == plain))
    elif h == "auto" and ratio is not None:
        vp.prove(b.content_width == line, "a ratio only: the width of a block is used", at=at)
    elif iw is not None:
        vp.prove(b.content_width == iw, "the intrinsic width is used", at=at)
    else:
        vp.prove(b.content_width == 300, "no information: the width is 300px", at=at)

    at = vp.site(b, "content_height")
    cw = b.content_width
    if h != "auto":
        vp.prove(b.content_height == h, "the specified height is used", at=at)
    elif w == "auto" and ih is not None:
        vp.prove(b.content_height == ih, "the intrinsic height is used", at=at)
    elif ratio is not None:
        vp.prove(b.content_height * ratio == cw, "the height follows from the width and the ratio", at=at,
                 known=("ratio-inverted", lambda: b.content_height == cw * ratio))
    elif ih is not None:
        vp.prove(b.content_height == ih, "the intrinsic height is used", at=at)
    else:
        vp.prove(b.content_height == min(cw // 2, 150), "no information: the height is half of the width, at most 150px", at=at)


case_size.over = kinds()


def case_edges():
    """boxes without edges"""
    n = replaced(vp.integer("iw", 0, 1000), vp.integer("ih", 0, 1000), None, display="inline")
    root = node(n, display="block")
    layout(Display(), root)
    b = n.layout
    vp.prove(b.content_left == 0 and b.content_top == 0, "without edges, the content starts at the container's", at=vp.site(b, "content_left"))
