"""The copy of a style is an independent style with the same values"""
import vp
from spec.common import CSS, Node, node
from spec.grammar import NAMES, P
from spec.values import any_value, equal, snapshot, unchanged


def same(s, t, label):
    for p in NAMES:
        vp.prove(equal(getattr(s, p), getattr(t, p)), label, at=vp.site(t, "_" + p))


def case_copy(name):
    """any value of any property"""
    s = CSS()
    setattr(s, name, any_value(name))
    old = snapshot(s)
    t = s.copy()
    vp.prove(t is not s and isinstance(t, CSS), "a copy is another style")
    same(s, t, "a copy has the same values (" + name + ")")
    vp.prove(t.keys() == s.keys(), "a copy specifies the same properties (" + name + ")")
    vp.prove(str(t) == str(s), "a copy has the same textual form (" + name + ")")
    vp.prove(unchanged(s, old), "copying doesn't change the original (" + name + ")")


case_copy.over = NAMES
case_copy.orders = True


def case_two(k):
    """two properties, of which one depends on the other, or which are parts of the same shorthand"""
    a, b = k
    s = CSS()
    setattr(s, a, any_value(a, "1"))
    setattr(s, b, any_value(b, "2"))
    t = s.copy()
    same(s, t, "a copy has the same values")
    vp.prove(t.keys() == s.keys(), "a copy specifies the same properties")


case_two.over = [("color", "border_top_color"), ("direction", "text_align"), ("margin_top", "margin_left"), ("border_left_style", "border_left_width"), ("outline_style", "outline_width"),
                 ("top", "bottom"), ("width", "max_width"), ("orphans", "widows")]
case_two.orders = True


def case_many():
    s = CSS(margin=(1, 2, vp.integer("m", 0, 50), "auto"), border_top="thin solid red", outline="dotted", clip="rect(1,2,3,4)", quotes="'a' 'b'", cursor="url(x), help",
            border_spacing="1px 2px", color="#123456", border_color="hsl(10, 20%, 30%)", display="none", width=vp.integer("w", 0, 50), direction="rtl", z_index=vp.integer("z", -5, 5))
    same(s, s.copy(), "a copy has the same values")
    vp.prove(s.copy().keys() == s.keys(), "a copy specifies the same properties")
    same(s, s.copy().copy(), "a copy of a copy has the same values")


case_many.orders = True


def case_independent(name):
    """changing one of them doesn't change the other"""
    s = CSS(margin_top=3, color="red")
    setattr(s, name, any_value(name, "1"))
    t = s.copy()
    a, b = snapshot(s), snapshot(t)
    setattr(t, name, any_value(name, "2"))
    vp.prove(unchanged(s, a), "changing the copy doesn't change the original (" + name + ")")
    b = snapshot(t)
    delattr(s, name)
    s.margin_top = 17
    vp.prove(unchanged(t, b), "changing the original doesn't change the copy (" + name + ")")


case_independent.over = [n for n in NAMES if P[n][1] is None or n in ("width", "color", "z_index", "clip", "quotes", "border_spacing", "cursor", "top")]


def case_node(k):
    """a copy belongs to the node it is made for"""
    n, m = node(node()), node()
    n.layout.dirty = m.layout.dirty = False
    s = CSS(width=3).copy(n)
    vp.prove(s.width == 3 and s.dirty is n.layout.dirty, "a copy belongs to the node it is made for")
    n.layout.dirty = False
    t = s.copy() if k == "none" else s.copy(m)
    vp.prove(n.layout.dirty is False, "copying doesn't make the layout of the original invalid")
    m.layout.dirty = False
    t.width = vp.integer("w", 4, 50)
    vp.prove(n.layout.dirty is False, "changing the copy doesn't concern the node of the original")
    if k == "node":
        vp.prove(m.layout.dirty is True, "changing the copy concerns its node")
    else:
        vp.prove(t.dirty is None, "a copy without a node has no layout")
    s.width = vp.integer("w", 4, 50)
    vp.prove(n.layout.dirty is True and n.children[0].layout.dirty is True, "changing the original concerns its node")


case_node.over = ["none", "node"]
