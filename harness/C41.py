"""Only the properties of the box model influence the layout"""
import vp
from colosseum.engine import layout
from spec import lazy
from spec.common import Display, node, replaced, text
from spec.geometry import same_tree, walk
from spec.grammar import P
from spec.lazy import OTHER


def edges(n):
    return {"margin": (n, "auto", n + 1, 2), "padding": (1, 2, n, "3%"), "border_width": ("thin", n, 2, "medium")}


def flow(make=node, word=text, image=replaced):
    """blocks in blocks; a block with texts and images"""
    return make(
        make(make(display="list-item", height=vp.integer("h", 0, 3000), width=vp.integer("w", 30, 3000), min_width=20, **edges(4)), display="block", position="relative", left=5, top="2%", **edges(3)),
        make(word(30, 40, display="inline", margin_left=3), image(None, 15, 2, display="inline", **edges(5)), display="block", max_width=600, direction="rtl"),
        make(display="none"),
        display="block", **edges(2))


def case_one(name):
    """any value of another property, of some nodes; set at first, or after a layout, and deleted then"""
    label = "a layout doesn't depend on " + name
    one, other = flow(), flow()
    layout(Display(width=900), other)
    if vp.choose("already laid out", False, True):
        layout(Display(width=900), one)
    some = vp.choose("which nodes", (0, 1, 2, 3, 4, 5), (2, 4))
    v = vp.choose("value", OTHER[name] + ((vp.integer("v", 0, 500),) if P[name][1] in ("length", "integer") else ()))
    for i in some:
        setattr(walk(one)[i].style, name, v)
    layout(Display(width=900), one)
    same_tree(one, other, label)
    for i in some:
        delattr(walk(one)[i].style, name)
    layout(Display(width=900), one)
    same_tree(one, other, label)


case_one.over = sorted(OTHER)


def case_open(standard):
    """any property that the layout reads, whichever it is"""
    one, other = flow(lazy.node, lazy.text, lazy.replaced), flow()
    layout(Display(width=900), one, *standard)
    layout(Display(width=900), other, *standard)
    same_tree(one, other, "a layout depends on the properties of the box model only")


case_open.over = [(), ("html4",)]
