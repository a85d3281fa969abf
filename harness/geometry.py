"""Comparison of boxes by everything that a user can observe of them"""
import vp

ATTRS = ("content_width", "content_height", "content_top", "content_right", "content_bottom", "content_left",
         "margin_top", "margin_right", "margin_bottom", "margin_left",
         "collapse_top", "collapse_right", "collapse_bottom", "collapse_left",
         "border_top_width", "border_right_width", "border_bottom_width", "border_left_width",
         "padding_top", "padding_right", "padding_bottom", "padding_left",
         "border_box_top", "border_box_right", "border_box_bottom", "border_box_left", "border_box_width", "border_box_height",
         "padding_box_top", "padding_box_right", "padding_box_bottom", "padding_box_left", "padding_box_width", "padding_box_height",
         "absolute_content_top", "absolute_content_right", "absolute_content_bottom", "absolute_content_left",
         "absolute_border_box_top", "absolute_border_box_right", "absolute_border_box_bottom", "absolute_border_box_left",
         "absolute_padding_box_top", "absolute_padding_box_right", "absolute_padding_box_bottom", "absolute_padding_box_left",
         "visible", "dirty")


def same_box(a, b, label):
    """two boxes can't be told apart"""
    if a is None or b is None:
        vp.prove(a is None and b is None, label + " (presence of the box)")
        return
    for name in ATTRS:
        vp.prove(getattr(a, name) == getattr(b, name), label + " (" + name + ")", at=vp.site(a, name))


def walk(n):
    out = [n]
    for c in n.children:
        out.extend(walk(c))
    return out


def same_tree(a, b, label):
    for x, y in zip(walk(a), walk(b)):
        same_box(x.layout, y.layout, label)
