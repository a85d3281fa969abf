"""What the engine can't lay out is refused, never laid out wrongly"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node, replaced, text


def refused(root, label):
    try:
        layout(Display(), root)
    except Exception:
        vp.prove(True, label)
        return
    vp.prove(False, label)


def wrap(n, where):
    if where == "root":
        return n
    if where == "only":
        return node(n, display="block")
    if where == "inline":
        return node(text(3, 4, display="inline"), n, display="block")
    if where == "before":
        return node(n, node(display="block", height=3), display="block")
    if where == "deep":
        return node(node(node(n, display="block"), display="block"), display="block")


def make(kind, style):
    s = vp.choose("sizes", dict(width=vp.integer("w", 0, 100), height=vp.integer("h", 0, 100)), dict(width="50%"), {})
    s.update(style)
    if kind == "replaced":
        return replaced(vp.integer("iw", 0, 100), vp.integer("ih", 0, 100), None, **s)
    n = node(**s)
    n.intrinsic.width = vp.integer("iw", 0, 100)
    n.intrinsic.height = vp.integer("ih", 0, 100)
    return n


def case_position(k):
    """absolute and fixed positions, floats"""
    kind, display, style, where = k
    s = {"display": display}
    s.update(style)
    refused(wrap(make(kind, s), where), "absolute and fixed positions and floats are refused")


STYLES = [{"position": "absolute"}, {"position": "fixed"}, {"float": "left"}, {"float": "right"}, {"position": "relative", "float": "left"}, {"position": "absolute", "float": "right"}]
case_position.over = [(kind, d, s, w) for kind in ("plain", "replaced") for d in ("block", "inline", "list-item") for s in STYLES for w in ("root", "only", "deep")]

ODD = ("inline-block", "inline-table", "table-row-group", "table-header-group", "table-footer-group", "table-row", "table-column-group",
       "table-column", "table-cell", "table-caption", "flex", "inline-flex", "grid", "inline-grid")


def case_display(k):
    kind, display, where = k
    refused(wrap(make(kind, {"display": display}), where), "displays that aren't supported are refused")


case_display.over = [(kind, d, w) for kind in ("plain", "replaced") for d in ODD for w in ("root", "only", "inline", "deep")]


def case_block_replaced(k):
    """replaced blocks"""
    refused(wrap(make("replaced", {"display": k[0]}), k[1]), "replaced blocks are refused")


case_block_replaced.over = [(d, w) for d in ("block", "list-item", "table") for w in ("root", "only", "before", "deep")]


def case_supported(k):
    """what is supported is laid out"""
    kind, display, style, where = k
    s = {"display": display}
    s.update(style)
    layout(Display(), wrap(make(kind, s), where))
    vp.prove(True, "what is supported is laid out")


case_supported.over = [(kind, d, s, w) for kind, d in (("plain", "block"), ("plain", "list-item"), ("plain", "table"), ("plain", "inline"), ("replaced", "inline"))
                       for s in ({}, {"position": "static"}, {"position": "relative"}, {"float": None}) for w in ("root", "only", "deep")]
