"""The root of the document fills the display; its margins are displayed"""
import vp
from colosseum.engine import layout
from spec.lazy import Display, node


def tree(k):
    h1, h2 = vp.integer("h1", 0, 300), vp.integer("h2", 0, 300)
    kids = []
    if k != "empty":
        kids = [node(display="block", height=h1, margin_top=vp.integer("first_top", 1, 60), margin_bottom=5),
                node(display="block", height=h2, margin_top=7, margin_bottom=vp.integer("last_bottom", 1, 60))]
    s = {}
    if k in ("margin", "edges", "empty"):
        s = {"margin_top": vp.integer("top", 1, 60), "margin_bottom": vp.integer("bottom", 1, 60)}
    if k in ("edges", "empty"):
        s["padding_top"] = vp.integer("padding", 1, 60)
        s["border_top_width"] = vp.integer("border", 1, 60)
    if k == "height":
        s["height"] = vp.integer("height", 0, 500)
    return node(*kids, display="block", **s), kids


def shift(root, kids):
    """how far the margins of the root (and of its first child) push it down"""
    top = getattr(root.style.margin_top, "val", 0)
    if kids:
        top = max(top, kids[0].style.margin_top.val)
    return top


def case_root(k):
    kind, standard = k
    H = vp.integer("H", 0, 2000)
    root, kids = tree(kind)
    twin = node(node(*tree(kind)[1], display="block", **{n: v for n, v in root.style.items() if n != "display"}), display="block")
    inner = twin.children[0]
    if standard == "default":
        layout(Display(height=H), root)
    else:
        layout(Display(height=H), root, standard)
    layout(Display(height=H), twin)
    b, t = root.layout, inner.layout
    top = shift(root, kids)
    vp.prove(b.collapse_top == top, "the top margins of the root and its first child collapse", at=vp.site(b, "collapse_top"))
    vp.prove(b.content_top == t.content_top + top, "the root is moved down by its collapsed top margin", at=vp.site(b, "content_top"))
    vp.prove(b.absolute_content_top == b.content_top and b.absolute_content_left == b.content_left, "the root is positioned on the display")
    for c in kids:
        vp.prove(c.layout.absolute_content_top == b.absolute_content_top + c.layout.content_top, "the children move with the root", at=vp.site(c.layout, "content_top"))
    if standard == "html4":
        vp.prove(b.content_height == t.content_height, "HTML4: the root has the height of its content", at=vp.site(b, "content_height"))
    else:
        vp.prove(b.content_height == H - b.collapse_top - b.collapse_bottom, "HTML5: the root fills the height of the display", at=vp.site(b, "content_height"))
    for x, y in zip(kids, inner.children):
        vp.prove(x.layout.content_top == y.layout.content_top and x.layout.content_height == y.layout.content_height,
                 "the children are laid out as in any block")
    vp.prove(b.content_width == t.content_width, "the root is as wide as any block")


case_root.over = [(k, s) for k in ("plain", "margin", "edges", "empty", "height") for s in ("default", "html4", "html5")]
