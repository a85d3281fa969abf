"""Lengths of the style in the layout: every unit is resolved against what it refers to"""
import vp
from colosseum import units
from colosseum.engine import layout
from spec.lazy import Display, node, replaced, text


# ------------------------------------------------------------------ which style property becomes which value of the box
HORIZONTAL = ("margin_left", "padding_left", "padding_right", "padding_top", "padding_bottom", "margin_top", "margin_bottom")
BORDERS = ("border_top_width", "border_right_width", "border_bottom_width", "border_left_width")


def pixels(n64):
    """64ths of a pixel as pixels"""
    return n64 / 64


def rounded(x):
    return pixels(round(64 * x))


def value(unit, display):
    """(a length in the unit, its size in pixels)"""
    v = vp.integer("v", 1, 40)
    if unit == "px":
        return v * units.px, v
    if unit == "number":
        return v, v
    if unit == "real":
        x = vp.real("x", 0.5, 40)
        return x, rounded(x)
    if unit == "pt":
        return v * units.pt, rounded(v / 72 * display.dpi)
    if unit == "pc":
        return v * units.pc, rounded(v * 12 / 72 * display.dpi)
    if unit == "in":
        return v * units.inch, rounded(v * display.dpi)
    if unit == "cm":
        return v * units.cm, rounded(v * (28.3465 / 72) * display.dpi)
    if unit == "mm":
        return v * units.mm, rounded(v * (2.83465 / 72) * display.dpi)
    if unit == "vw":
        return v * units.vw, rounded(v * display.content_width / 100)
    if unit == "vh":
        return v * units.vh, rounded(v * display.content_height / 100)
    if unit == "vmin":
        return v * units.vmin, rounded(v * min(display.content_width, display.content_height) / 100)
    if unit == "vmax":
        return v * units.vmax, rounded(v * max(display.content_width, display.content_height) / 100)


UNITS = ("px", "number", "real", "pt", "pc", "in", "cm", "mm", "vw", "vh", "vmin", "vmax")


def display():
    """any display, after something was laid out on another one"""
    first = node(node(display="block", height="3mm", width="5vmin", border_width=("thin", "medium", "thick", "2px"), margin=("1in", "2vh", "3%", "4vw"), padding=("5pt", "6%", "7vmax", "8pc")), display="block", width="9cm")
    layout(Display(50, 333, 77, (2, 3, 4)), first)
    return Display(vp.choose("dpi", 72, 96, 160), vp.integer("display_width", 100, 2000), vp.integer("display_height", 100, 2000), (vp.integer("thin", 0, 20), vp.integer("medium", 0, 20), vp.integer("thick", 0, 20)))


def case_absolute(k):
    prop, unit = k
    d = display()
    v, want = value(unit, d)
    n = node(display="block", height=10, **{prop: v})
    root = node(n, display="block", width=vp.integer("W", 1, 500))
    layout(d, root)
    vp.prove(getattr(n.layout, prop) == want, "a length of the edges, in pixels", at=vp.site(n.layout, prop))


case_absolute.over = [(p, u) for p in HORIZONTAL + BORDERS for u in ("px", "pt", "cm", "vw", "vmin")] + [
    (p, u) for p in ("margin_left", "border_top_width") for u in UNITS]
case_absolute.more = [(p, u) for p in HORIZONTAL + BORDERS for u in UNITS]


def case_size(k):
    unit, what = k
    d = display()
    v, want = value(unit, d)
    if what == "block":
        n = node(display="block", width=v, height=v)
    elif what == "replaced":
        n = replaced(10, 20, None, display="inline", width=v, height=v)
    elif what == "limits":
        n = node(display="block", width=9999, height=9999, max_width=v, max_height=v)
        want = min(want, 9999)
    elif what == "minimum":
        n = node(display="block", width=0, min_width=v, min_height=v)
    root = node(n, display="block")
    layout(d, root)
    vp.prove(n.layout.content_width == (max(0, want) if what == "minimum" else want), "a width, in pixels", at=vp.site(n.layout, "content_width"))
    vp.prove(n.layout.content_height == want, "a height, in pixels", at=vp.site(n.layout, "content_height"))


case_size.over = [(u, w) for u in UNITS for w in ("block", "replaced", "limits", "minimum")]


def case_offset(k):
    unit, near, far = k
    d = display()
    v, want = value(unit, d)
    a = node(display="block", height=10, position="relative", **{near: v})
    b = node(display="block", height=10, position="relative", **{far: v})
    root = node(node(a, display="block"), node(b, display="block"), display="block")
    layout(d, root)
    attr = "content_" + near
    vp.prove(getattr(a.layout, attr) == want, "an offset, in pixels", at=vp.site(a.layout, attr))
    vp.prove(getattr(b.layout, attr) == -want, "an offset, in pixels", at=vp.site(b.layout, attr))


case_offset.over = [(u, a, b) for u in UNITS for a, b in (("left", "right"), ("top", "bottom"))]


# ------------------------------------------------------------------ percentages
def case_percent(k):
    """percentages of the edges refer to the width of the containing block"""
    prop, p, parent = k
    W = vp.integer("W", 1, 200) * 100
    n = node(display="block", height=10, **{prop: "%d%%" % p})
    if parent == "block":
        root = node(node(n, display="block", width=W, height=vp.integer("H", 1, 50), padding_left=3), display="block")
    elif parent == "root":
        root = n
    else:
        root = node(n, display="block", margin_left=4, padding_right=6)
        W = W - 10
    d = Display(96, W if parent == "root" else (W + 10 if parent == "auto" else 4000), vp.integer("D", 1, 2000))
    layout(d, root)
    vp.prove(getattr(n.layout, prop) == rounded(p * W / 100), "a percentage of the width of the containing block", at=vp.site(n.layout, prop))


case_percent.over = [(p, q, parent) for p in HORIZONTAL for q in (7, 50, 100) for parent in ("block", "root", "auto")]


def case_percent_width(k):
    prop, p = k
    W = vp.integer("W", 1, 200) * 100
    s = {"width": "%d%%" % p} if prop == "width" else {"width": 90000 if prop == "max_width" else 0, prop: "%d%%" % p}
    n = node(display="block", height=10, **s)
    root = node(node(n, display="block", width=W), display="block")
    layout(Display(), root)
    vp.prove(n.layout.content_width == rounded(p * W / 100), "a percentage of the width of the containing block", at=vp.site(n.layout, "content_width"))


case_percent_width.over = [(w, p) for w in ("width", "max_width", "min_width") for p in (7, 50, 100, 150)]


def case_percent_height(k):
    """a percentage of the height of a parent with a specified height"""
    p, deep = k
    H = vp.integer("H", 1, 200) * 100
    n = node(display="block", height="%d%%" % p)
    parent = node(n, display="block", height=H)
    root = node(node(parent, display="block"), display="block") if deep else parent
    layout(Display(96, 1000, vp.integer("D", 100, 2000)), root)
    vp.prove(n.layout.content_height == rounded(p * H / 100), "a percentage of the specified height of the parent", at=vp.site(n.layout, "content_height"))


case_percent_height.over = [(p, deep) for p in (7, 50, 100, 150) for deep in (False, True)]


# ------------------------------------------------------------------ named border widths
def case_named(k):
    prop, name = k
    d = display()
    n = node(display="block", height=10, **{prop: vp.fresh(name)})
    root = node(n, display="block")
    layout(d, root)
    vp.prove(getattr(n.layout, prop) == d.fixed_size(name), "a named border width is the one of the display", at=vp.site(n.layout, prop))


case_named.over = [(p, n) for p in BORDERS for n in ("thin", "medium", "thick")]
