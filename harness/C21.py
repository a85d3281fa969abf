"""The boxes of a node: content, padding and border box are consistent"""
import vp
from colosseum.dimensions import Box, Size
from spec.common import Node, node

NUMBER = {"int": lambda name, lo, hi: vp.integer(name, lo, hi), "real": lambda name, lo, hi: vp.real(name, lo, hi)}
SIDES = ("top", "right", "bottom", "left")


def fill(b, num, tag=""):
    """give a box arbitrary stored dimensions"""
    b.content_width = num(tag + "content_width", -50, 2000)
    b.content_height = num(tag + "content_height", -50, 2000)
    for side in SIDES:
        setattr(b, "padding_" + side, num(tag + "padding_" + side, 0, 200))
        setattr(b, "border_" + side + "_width", num(tag + "border_" + side, 0, 200))
    b.content_top = num(tag + "content_top", -2000, 2000)
    b.content_left = num(tag + "content_left", -2000, 2000)


def check(b, ox, oy):
    """everything that is computed, from what is stored and from the origin"""
    w, h, x, y = b.content_width, b.content_height, b.content_left, b.content_top
    p = {s: getattr(b, "padding_" + s) for s in SIDES}
    e = {s: getattr(b, "padding_" + s) + getattr(b, "border_" + s + "_width") for s in SIDES}
    want = {"content_top": y, "content_left": x, "content_right": x + w, "content_bottom": y + h,
            "padding_box_top": y - p["top"], "padding_box_left": x - p["left"],
            "padding_box_right": x + w + p["right"], "padding_box_bottom": y + h + p["bottom"],
            "border_box_top": y - e["top"], "border_box_left": x - e["left"],
            "border_box_right": x + w + e["right"], "border_box_bottom": y + h + e["bottom"]}
    for name in want:
        at = vp.site(b, name)
        vp.prove(getattr(b, name) == want[name], "the sides of the boxes, relative to the container (" + name + ")", at=at)
        base = oy if name.endswith("top") or name.endswith("bottom") else ox
        vp.prove(getattr(b, "absolute_" + name) == base + want[name], "the absolute sides of the boxes (" + name + ")", at=at)
    size = {"padding_box_width": w + p["left"] + p["right"], "padding_box_height": h + p["top"] + p["bottom"],
            "border_box_width": w + e["left"] + e["right"], "border_box_height": h + e["top"] + e["bottom"]}
    for name in size:
        vp.prove(getattr(b, name) == size[name], "the sizes of the boxes (" + name + ")")


def case_root(k):
    n = node()
    fill(n.layout, NUMBER[k])
    check(n.layout, 0, 0)


case_root.over = ["int", "real"]


def case_child(k):
    """in a parent that is positioned before, after, or before and after its child"""
    kind, when = k
    num = NUMBER[kind]
    child = node()
    parent = node(child)
    root = node(parent)
    if when in ("before", "both"):
        fill(parent.layout, num, "p_")
        fill(root.layout, num, "r_")
    fill(child.layout, num)
    if when in ("after", "both"):
        fill(root.layout, num, "r2_")
        fill(parent.layout, num, "p2_")
    p = parent.layout
    check(child.layout, root.layout.content_left + p.content_left, root.layout.content_top + p.content_top)
    check(parent.layout, root.layout.content_left, root.layout.content_top)
    check(root.layout, 0, 0)


case_child.over = [(n, w) for n in ("int", "real") for w in ("before", "after", "both")]


def case_again():
    """the stored dimensions can change in any order"""
    n = node()
    num = NUMBER["int"]
    fill(n.layout, num, "old_")
    check(n.layout, 0, 0)
    b = n.layout
    b.content_left = num("new_left", -2000, 2000)
    check(b, 0, 0)
    b.padding_left = num("new_padding", 0, 200)
    b.border_bottom_width = num("new_border", 0, 200)
    check(b, 0, 0)
    b.content_height = num("new_height", 0, 2000)
    check(b, 0, 0)


def case_new():
    """a new box, and one that was reset, is empty and at the origin"""
    n = node(node())
    fill(n.layout, NUMBER["int"])
    n.layout.margin_top = vp.integer("margin", -100, 100)
    n.layout.reset()
    for b in (node().layout, n.layout, n.children[0].layout):
        check(b, 0, 0)
        for name in ("content_width", "content_height", "content_top", "content_left") + tuple(
                x + "_" + s for x in ("margin", "padding", "collapse") for s in SIDES) + tuple("border_" + s + "_width" for s in SIDES):
            vp.prove(getattr(b, name) == 0, "a new box, or one that was reset, is empty (" + name + ")", at=vp.site(b, name))
        vp.prove(b.visible is True, "a new box, or one that was reset, is visible")
        vp.prove(b.dirty is True, "a new box, or one that was reset, isn't laid out yet")


def case_repr():
    n = node()
    fill(n.layout, NUMBER["int"])
    b = n.layout
    want = "<Box (" + str(b.content_width) + "x" + str(b.content_height) + " @ " + str(b.content_left) + "," + str(b.content_top) + ")>"
    vp.prove(repr(b) == want, "the textual form of a box shows its size and its absolute position")
