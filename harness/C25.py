"""Laying out a document again gives what laying out a new, equal document gives"""
import vp
from colosseum.engine import layout
from spec.common import Display, node, replaced, text
from spec.geometry import same_tree, walk


# a document whose styles depend on a version
def doc(v, shape):
    mid = "mid" + v
    if shape == "blocks":
        a = node(display="block", height=vp.integer("h1" + v, 1, 100), margin_top=vp.integer("mt" + v, 1, 50), margin_bottom=vp.integer("mb" + v, 1, 50))
        b = node(display="block", width=vp.integer("w" + v, 1, 100), height=20, margin_left="auto", margin_right="auto", padding_top=vp.integer("p" + v, 1, 10))
        c = node(a, b, display="block", border_left_width="thin")
        d = node(display="block", height=4, margin_top=vp.integer("dt" + v, 1, 50))
        return node(c, d, display="block", margin_top=vp.integer("rt" + v, 1, 50))
    if shape == "inline":
        a = replaced(vp.integer("iw" + v, 1, 100), vp.integer("ih" + v, 1, 100), None, display="inline", margin_top=vp.integer("mt" + v, 1, 50), margin_left="auto")
        b = text(vp.integer("tw" + v, 1, 100), vp.integer("th" + v, 1, 100), display="inline", padding_left=vp.integer("p" + v, 1, 10))
        return node(node(a, b, display="block", margin_bottom=vp.integer("mb" + v, 1, 50)), node(display="block", height=5), display="block")
    if shape == "relative":
        a = node(node(display="block", height=6), display="block", position="relative", top=vp.integer("top" + v, -50, 50), left=vp.integer("left" + v, -50, 50),
                 padding_top=vp.integer("p" + v, 1, 10))
        return node(a, node(display="block", height=7, margin_top=vp.integer("mt" + v, 1, 9)), display="block", padding_left=2)


SHAPES = ("blocks", "inline", "relative")
PROPS = ("display", "height", "width", "margin_top", "margin_right", "margin_bottom", "margin_left", "padding_top", "padding_left", "border_left_width",
         "position", "top", "left")


def adopt(a, b):
    """give the nodes of a the styles and sizes of those of b"""
    for x, y in zip(walk(a), walk(b)):
        for p in PROPS:
            v = getattr(y.style, p)
            if v is None:
                delattr(x.style, p)
            else:
                setattr(x.style, p, v)
        x.intrinsic.width = y.intrinsic.width
        x.intrinsic.height = y.intrinsic.height


def screen(v):
    return Display(96, vp.integer("W" + v, 100, 2000), vp.integer("H" + v, 100, 2000), (vp.integer("thin" + v, 0, 9), 2, 3))


def mark(root, k):
    """what the application does with the state of the layout: nothing, or the layout counts as up to date, or as being evaluated"""
    if k == "clean":
        root.layout.dirty = False
    if k == "busy":
        root.layout.dirty = None
    if k == "clean-child":
        root.children[0].layout.dirty = False
    if k == "clean-leaf":
        walk(root)[2].layout.dirty = False


MARKS = ("no", "clean", "busy", "clean-child", "clean-leaf")


def case_again(k):
    """the same document, laid out several times"""
    shape, n, m = k
    a, b = doc("", shape), doc("", shape)
    for i in range(n):
        layout(screen(""), a)
        if i + 1 < n:
            mark(a, m)
    layout(screen(""), b)
    same_tree(a, b, "laying out again changes nothing")


case_again.over = [(s, 2, m) for s in SHAPES for m in MARKS] + [(s, 3, "no") for s in SHAPES]


def case_changed(k):
    """laid out, changed, laid out on another display"""
    shape, standard, m = k
    a, b = doc("_old", shape), doc("_new", shape)
    layout(screen("_old"), a)
    mark(a, m)
    adopt(a, b)
    layout(screen("_new"), a, *standard)
    layout(screen("_new"), b, *standard)
    same_tree(a, b, "the result depends on the current styles and the display only")


case_changed.over = [("inline", (), "no"), ("relative", (), "no"), ("relative", ("html4",), "clean"), ("inline", (), "clean")]
case_changed.more = case_changed.over + [("blocks", (), "no")] + [(s, (), m) for s in ("inline", "relative") for m in MARKS[2:]]


def case_resized(k):
    """the same document on another display"""
    k, m = k
    a, b = doc("", k), doc("", k)
    layout(screen("_old"), a)
    mark(a, m)
    layout(screen("_new"), a)
    layout(screen("_new"), b)
    same_tree(a, b, "the result depends on the current styles and the display only")


case_resized.over = [(s, m) for s in SHAPES for m in MARKS]


def case_margins(k):
    """margins that get smaller, or disappear, leave nothing behind"""
    def make(v, zero):
        at, ab, bt = [0 if z else vp.integer(n + v, 1, 50) for n, z in zip(("at", "ab", "bt"), zero)]
        a = node(display="block", height=10, margin_top=at, margin_bottom=ab)
        b = node(display="block", height=20, margin_top=bt)
        return node(node(a, b, display="block"), display="block")
    old, new = k
    a, b = make("_old", old), make("_new", new)
    layout(Display(), a)
    adopt(a, b)
    layout(Display(), a)
    layout(Display(), b)
    same_tree(a, b, "the result depends on the current styles and the display only")


FLAGS = [(x, y, z) for x in (False, True) for y in (False, True) for z in (False, True)]
case_margins.over = [((False, False, False), n) for n in FLAGS] + [(n, (False, False, False)) for n in FLAGS[1:]]
case_margins.more = [(o, n) for o in FLAGS for n in FLAGS]


def case_shown(k):
    """hidden and shown again"""
    where, first = k

    def make():
        kid = node(display="block", height=vp.integer("kid", 1, 50), margin_top=3)
        a = node(kid, display="block", margin_top=vp.integer("at", 1, 50), padding_left=4)
        b = node(display="block", height=vp.integer("bh", 1, 50), margin_bottom=vp.integer("bb", 1, 50))
        c = node(a, b, display="block", margin_left=vp.integer("cl", 1, 50), padding_top=vp.integer("cp", 1, 50))
        return node(c, node(display="block", height=8), display="block"), {"kid": kid, "a": a, "b": b, "c": c}
    x, names = make()
    y, _ = make()
    if first:
        layout(Display(), x)
    t = names[where]
    if where == "root":
        t = x
    t.style.display = "none"
    layout(Display(), x)
    t.style.display = "block"
    layout(Display(), x)
    layout(Display(), y)
    same_tree(x, y, "a node that is shown again is laid out as if it had never been hidden")


case_shown.over = [(w, f) for w in ("kid", "a", "b", "c") for f in (False, True)]


def case_shown_root():
    x, y = doc("", "blocks"), doc("", "blocks")
    x.style.display = "none"
    layout(Display(), x)
    x.style.display = "block"
    layout(Display(), x)
    layout(Display(), y)
    same_tree(x, y, "a node that is shown again is laid out as if it had never been hidden")


def case_children(k):
    """children that are added, moved or removed"""
    def leaf(i):
        return node(display="block", height=vp.integer("h%d" % i, 1, 50), margin_top=vp.integer("t%d" % i, 1, 50))
    a = node(node(leaf(0), leaf(1), display="block"), display="block")
    layout(Display(), a)
    k, m = k
    mark(a, m)
    inner = a.children[0]
    if k == "remove":
        inner.children.pop(0)
        b = node(node(leaf(1), display="block"), display="block")
    elif k == "remove-last":
        inner.children.pop()
        b = node(node(leaf(0), display="block"), display="block")
    elif k == "swap":
        inner.children.reverse()
        b = node(node(leaf(1), leaf(0), display="block"), display="block")
    elif k == "add":
        new = leaf(2)
        new.parent = inner
        inner.children.append(new)
        b = node(node(leaf(0), leaf(1), leaf(2), display="block"), display="block")
    else:
        del inner.children[:]
        b = node(node(display="block"), display="block")
    layout(Display(), a)
    layout(Display(), b)
    same_tree(a, b, "the result depends on the current tree only")


case_children.over = [(k, m) for k in ("remove", "remove-last", "swap", "add", "empty") for m in MARKS]


def case_failed(k):
    """a layout that isn't supported doesn't spoil the next one"""
    def make():
        a = node(display="block", height=vp.integer("h", 1, 50), margin_top=vp.integer("mt", 1, 50))
        b = node(display="block", height=9, padding_top=vp.integer("p", 1, 50))
        return node(node(a, b, display="block", margin_top=vp.integer("ct", 1, 50)), display="block")
    x, y = make(), make()
    target = x.children[0].children[k[0]]
    setattr(target.style, k[1], k[2])
    try:
        layout(Display(), x)
    except Exception:
        pass
    setattr(target.style, k[1], k[3])
    layout(Display(), x)
    layout(Display(), y)
    same_tree(x, y, "the result depends on the current styles and the display only")


case_failed.over = [(i, p, bad, good) for i in (0, 1) for p, bad, good in (("float", "left", None), ("position", "absolute", "static"), ("display", "flex", "block"))]


def case_other():
    """two documents don't influence each other"""
    a, b = doc("_a", "inline"), doc("_b", "relative")
    c, d = doc("_a", "inline"), doc("_b", "relative")
    layout(screen("_a"), a)
    layout(screen("_b"), b)
    layout(screen("_a"), a)
    layout(screen("_b"), d)
    layout(screen("_a"), c)
    same_tree(a, c, "documents don't influence each other")
    same_tree(b, d, "documents don't influence each other")
