"""After a layout, every displayed box has a complete geometry, and is up to date"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node, replaced, text
from spec.geometry import ATTRS, walk

NUMBERS = [a for a in ATTRS if a not in ("visible", "dirty")]


def edge(name):
    """auto or a number"""
    return vp.choose(name, "auto", vp.integer("n_" + name, 0, 100))


def length(name):
    """auto, a percentage, or a length in another unit"""
    k = vp.choose(name, "auto", "%", "em")
    return k if k == "auto" else str(vp.integer("n_" + name, 0, 100)) + k


def high(tag, kind=edge, **more):
    style = {"display": "block", "margin_top": kind("mt" + tag), "margin_bottom": kind("mb" + tag), "height": kind("h" + tag), "border_top_width": "thin", "padding_left": "2%"}
    style.update(more)
    return style


def wide(tag, kind=edge, **more):
    style = {"display": "block", "margin_left": kind("ml" + tag), "margin_right": kind("mr" + tag), "width": kind("w" + tag), "border_left_width": "thick", "padding_right": "1em"}
    style.update(more)
    return style


def limited(tag, what):
    return {"display": vp.choose("d" + tag, "block", "list-item", "table"), what: edge(what + tag), "max_" + what: vp.choose("max" + tag, "none", 50, "10%"), "min_" + what: vp.choose("min" + tag, "auto", 20, "1em"),
            "direction": vp.choose("dir" + tag, "ltr", "rtl")}


def image(tag, iw, ih, ratio):
    return replaced(vp.integer("n_iw" + tag, 0, 100) if iw else None, vp.integer("n_ih" + tag, 0, 100) if ih else None, 0.5 if ratio else None,
                    display="inline", width=edge("w" + tag), height=edge("h" + tag), margin_left=vp.choose("ml" + tag, "auto", 3), margin_top=vp.choose("mt" + tag, "auto", 3))


def word(tag):
    return text(vp.integer("iw" + tag, 0, 100), vp.integer("ih" + tag, 0, 100), display="inline", margin_left=edge("ml" + tag), margin_top=edge("mt" + tag), margin_right="auto", margin_bottom="auto", width="auto")


DOCS = {
    "root": lambda: node(**high("0")),
    "root-wide": lambda: node(**wide("0")),
    "root-limited": lambda: node(**limited("0", "width")),
    "root-limited-high": lambda: node(**limited("0", "height")),
    "nested": lambda: node(node(**wide("1")), display="block", height=50),
    "nested-units": lambda: node(node(**wide("1", length)), display="block", height=50),
    "nested-high": lambda: node(node(**high("1")), **{"display": "block", "height": edge("h0")}),
    "nested-high-units": lambda: node(node(**high("1", length)), **{"display": "block", "height": edge("h0")}),
    "limited": lambda: node(node(**limited("1", "width")), display="block"),
    "limited-high": lambda: node(node(**limited("1", "height")), display="block"),
    "borders": lambda: node(node(display="block", border_left_width=vp.choose("b", "thin", "medium", "thick", 3, "1em"), border_bottom_width=vp.choose("c", "thin", "medium", "thick", 0)), display="block"),
    "pair": lambda: node(node(display="block", margin_top=edge("a"), height=edge("ha")), node(display="list-item", margin_top=edge("b"), margin_bottom="auto"), display="table"),
    "deep": lambda: node(node(node(display="block", margin="auto", height=edge("h"), width=edge("w")), display="block", margin="auto"), display="block", margin="auto", width=edge("w0")),
    "word": lambda: node(word("1"), display="block"),
    "words": lambda: node(text(3, 4, display="inline"), word("1"), display="block", height=edge("h0")),
    "inline": lambda: node(text(3, 4, display="inline"), display="block", margin="auto", position="relative", left=edge("l"), top=edge("t")),
    "relative": lambda: node(node(display="block", position="relative", left=edge("l"), right=edge("r"), top=edge("t"), bottom=edge("b"), margin="auto"), display="block"),
    "hidden": lambda: node(node(display="none"), node(**high("1")), node(display="none"), display="block"),
}
for _iw in (0, 1):
    for _ih in (0, 1):
        for _r in (0, 1):
            DOCS["image%d%d%d" % (_iw, _ih, _r)] = lambda iw=_iw, ih=_ih, r=_r: node(image("1", iw, ih, r), display="block")


def case_complete(k):
    kind, standard = k
    root = DOCS[kind]()
    layout(Display(width=vp.integer("W", 0, 2000), height=vp.integer("H", 0, 2000)), root, *standard)
    for n in walk(root):
        if n.style.display is None:
            vp.prove(n.layout is None, "a hidden node has no box")
            continue
        vp.prove(n.layout is not None, "a displayed node has a box")
        odd = ""
        for name in NUMBERS:
            value = getattr(n.layout, name)
            if not isinstance(value, (int, float)) or isinstance(value, bool):
                odd = odd or name
        vp.prove(odd == "", "the geometry of a displayed box is complete: only numbers", at=odd + ": " + vp.site(n.layout, odd))
        vp.prove(n.layout.visible is True, "a displayed box is visible")


case_complete.over = [(k, s) for k in sorted(DOCS) for s in ((), ("html4",))]


def case_edges(k):
    """the widths that the style specifies are in the box"""
    side = k
    p, b = vp.integer("p", 0, 50), vp.integer("b", 0, 50)
    make = vp.choose("kind", "block", "image", "word")
    style = {"display": "block" if make == "block" else "inline", "padding_" + side: p, "border_" + side + "_width": b}
    child = node(**style) if make == "block" else replaced(3, 4, None, **style) if make == "image" else text(3, 4, **style)
    layout(Display(), node(child, display="block"))
    for s in ("top", "right", "bottom", "left"):
        vp.prove(getattr(child.layout, "padding_" + s) == (p if s == side else 0), "a box has the paddings of its style", at=vp.site(child.layout, "padding_" + s))
        vp.prove(getattr(child.layout, "border_" + s + "_width") == (b if s == side else 0), "a box has the border widths of its style", at=vp.site(child.layout, "border_" + s + "_width"))


case_edges.over = ("top", "right", "bottom", "left")
