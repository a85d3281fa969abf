"""A layout writes boxes, and nothing else"""
import vp
from colosseum.engine import layout
from spec.common import CSS, Display, Node, node, replaced, text
from spec.geometry import walk
from spec.values import snapshot, unchanged


def state(obj):
    """the public attributes of an object (the box of a node excepted)"""
    return {name: value for name, value in vars(obj).items() if name != "layout" and not name.startswith("_")}


SIZE = ("width", "height", "ratio", "exact_width", "exact_height", "is_replaced")
BOX = ("content_top", "content_left", "content_width", "content_height", "absolute_content_top", "absolute_content_left", "collapse_top", "collapse_bottom", "dirty") + tuple(
    kind + "_" + side for kind in ("margin", "padding", "border") for side in ("top", "right", "bottom", "left"))


def size(intrinsic):
    return {name: getattr(intrinsic, name) for name in SIZE}


def box(b):
    values = {}
    for name in BOX:
        values[name] = getattr(b, name if not name.startswith("border") else name + "_width")
    return values


def same(old, new, label):
    vp.prove(set(old) == set(new), label)
    for name in old:
        if name in new:
            vp.prove(old[name] is new[name] or old[name] == new[name], label)


def doc(k):
    h = vp.integer("h", 0, 100)
    if k == "block":
        return node(node(display="block", height=h, margin_top=vp.integer("m", 0, 50)), node(display="block", width="50%", margin_left="auto", border_left_width="thick"),
                    display="block", padding_top=3)
    if k == "inline":
        return node(replaced(vp.integer("iw", 0, 100), None, 0.5, display="inline", margin_left="auto"), text(h, 7, display="inline", padding_top=2), display="block")
    if k.startswith("replaced"):
        iw = vp.choose("iw?", None, vp.integer("iw", 0, 100))
        ih = vp.choose("ih?", None, vp.integer("ih", 0, 100))
        style = {"replaced": {}, "replaced-width": {"width": h}, "replaced-height": {"height": h}, "replaced-size": {"width": "50%", "height": h}}[k]
        return node(replaced(iw, ih, vp.choose("ratio", None, 0.5, 2), display="inline", margin_top="auto", position=vp.choose("p", "static", "relative"), **style), display="block")
    if k == "relative":
        return node(node(node(display="block", height=h), display="block", position="relative", top=vp.integer("t", -50, 50), right=4), display="list-item")
    if k == "hidden":
        return node(node(display="none", height=h), node(node(display="none"), display="block", max_height=h, height=40), display="block")
    if k == "hidden-tree":
        return node(node(node(display="none"), node(display="block", height=h), node(node(display="none"), display="inline"), display="none"), node(display="block"), display="block")
    if k == "percent":
        return node(node(node(display="block", height="50%", width="30%"), display="block", height=h, max_height="70%", padding_left="10%"), node(display="block", margin="auto", width=10, direction="rtl"), display="block", height=vp.integer("H2", 1, 500))
    if k == "hidden-root":
        return node(node(display="block", height=h), display="none")
    if k == "limits":
        return node(node(display="block", height=h, max_height=50, width=200, max_width=vp.integer("mw", 0, 300), min_width=10), node(display="block", min_height=h), display="table")
    if k in ("absolute", "fixed"):
        return node(node(display="block", height=h), node(display="block", position=k, left=4), display="block")
    if k == "float":
        return node(node(display="block", float="left", height=h), display="block")
    if k == "inline-block":
        return node(node(display="inline-block", height=h), display="block")


KINDS = ("block", "inline", "replaced", "replaced-width", "replaced-height", "replaced-size", "hidden-tree", "percent", "relative", "hidden", "hidden-root", "limits", "absolute", "fixed", "float", "inline-block")


def case_frame(k):
    kind, standard = k
    root = doc(kind)
    nodes = walk(root)
    d = Display(width=vp.integer("W", 1, 2000), height=vp.integer("H", 1, 2000))
    tree = [(n, n.parent, list(n.children), n.children, n.style, n.intrinsic) for n in nodes]
    before = [(state(n), snapshot(n.style), size(n.intrinsic)) for n in nodes]
    screen = state(d)
    try:
        layout(d, root, *standard)
    except Exception:
        pass
    for n, parent, children, holder, style, intrinsic in tree:
        vp.prove(n.parent is parent, "the tree is unchanged")
        vp.prove(n.children is holder and len(children) == len(holder) and all(x is y for x, y in zip(children, holder)), "the tree is unchanged")
        vp.prove(n.style is style and n.intrinsic is intrinsic, "a node keeps its style and its intrinsic size")
    for n, old in zip(nodes, before):
        same(old[0], state(n), "a node gets no other new or changed attribute than its box")
        vp.prove(unchanged(n.style, old[1]), "the style is unchanged")
        same(old[2], size(n.intrinsic), "the intrinsic size is unchanged")
    same(screen, state(d), "the display is unchanged")


case_frame.over = [(k, s) for k in KINDS for s in ((), ("html4",))]


def case_shared_style():
    """nodes with the same style don't influence each other"""
    style = CSS(display="block", height=vp.integer("h", 0, 100), margin_top=vp.integer("m", 1, 50))
    items = style.items()
    a, b = Node(style), Node(style)
    root = node(a, b, display="block")
    layout(Display(), root)
    vp.prove(len(items) == len(style.items()), "the style is unchanged")
    vp.prove(a.layout.content_height == b.layout.content_height, "equal styles give equal boxes")


def case_bystander():
    """boxes outside of the document are unaffected"""
    other = node(node(display="block", height=5), display="block")
    layout(Display(), other)
    old = [box(x.layout) for x in walk(other)]
    root = node(node(display="block", height=vp.integer("h", 0, 100)), display="block")
    layout(Display(), root)
    for x, s in zip(walk(other), old):
        same(s, box(x.layout), "the boxes of other documents are unchanged")
