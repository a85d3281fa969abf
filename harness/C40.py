"""Printing never fails, changes nothing and shows the parts"""
import vp
from colosseum import units as u
from colosseum.colors import hsl, rgb
from colosseum.dimensions import Box
from colosseum.engine import layout
from colosseum.shapes import Rect
from colosseum.wrappers import BorderSpacing, Cursor, Quotes, Uri
from spec.common import CSS, Display, node
from spec.grammar import NAMES, P
from spec.values import any_value, snapshot, unchanged


def case_style(name):
    """every value of every property"""
    s = CSS()
    v = any_value(name)
    setattr(s, name, v)
    old = snapshot(s)
    got = getattr(s, name)
    a, b, c = str(got), repr(got), str(s)
    vp.prove(isinstance(a, str) and isinstance(b, str) and isinstance(c, str), "values and styles can be printed")
    vp.prove(isinstance(repr(s), str), "values and styles can be printed")
    vp.prove(unchanged(s, old) and str(getattr(s, name)) == a and repr(getattr(s, name)) == b and str(s) == c, "printing changes nothing")
    if name in s.keys():
        vp.prove(c == name.replace("_", "-") + ": " + a, "the text of a style has the text of its value")
    else:
        vp.prove(c == "", "the text of a style has the text of its value")


case_style.over = NAMES


def case_colours(k):
    r, g, b = vp.integer("r", 0, 255), vp.integer("g", 0, 255), vp.integer("b", 0, 255)
    if k == "rgb":
        c = rgb(r, g, b, 0.5)
        want = "rgba(" + str(r) + ", " + str(g) + ", " + str(b) + ", 0.5)"
    else:
        c = hsl(r, 0.25, 0.75, 0.5)
        want = "hsla(" + str(r) + ", 0.25, 0.75, 0.5)"
    vp.prove(repr(c) == want and str(c) == want, "the text of a colour has its components, in their order")


case_colours.over = ("rgb", "hsl")


def case_shapes():
    a, b, c, d = [vp.integer(x, -500, 500) for x in ("a", "b", "c", "d")]
    r = Rect(a * u.px, b * u.em, c * u.vh, d * u.percent)
    want = "rect(" + str(a) + "px, " + str(b) + "em, " + str(c) + "vh, " + str(d) + "%)"
    vp.prove(repr(r) == want and str(r) == want, "the text of a rect has its sides, in their order")
    s, t = BorderSpacing(a * u.px), BorderSpacing(a * u.px, b * u.em)
    vp.prove(str(s) == str(a) + "px" and repr(s) == "BorderSpacing(" + str(a) + "px)", "the text of a border spacing has its lengths")
    vp.prove(str(t) == str(a) + "px " + str(b) + "em" and repr(t) == "BorderSpacing(" + str(a) + "px, " + str(b) + "em)", "the text of a border spacing has its lengths")


def case_lists():
    w, v = vp.word("w", "path", 1), vp.word("v", "path", 1)
    x, y = Uri(w), Uri(v)
    vp.prove(str(x) == 'url("' + w + '")' and repr(x) == str(x), "the text of a url has the url")
    c = Cursor([x, y, "help"])
    vp.prove(str(c) == str(x) + ", " + str(y) + ", help", "the text of a cursor has its urls and its keyword")
    vp.prove(repr(c) == "Cursor([" + repr(x) + ", " + repr(y) + ", 'help'])", "the text of a cursor has its urls and its keyword")
    vp.prove(str(Cursor()) == "" and repr(Cursor()) == "Cursor()", "the text of a cursor has its urls and its keyword")
    for pairs, text in (([("<", ">")], "'<' '>'"), ([("<", ">"), ("{", "}")], "'<' '>' '{' '}'"), ([("'", '"')], '"\'" \'"\'')):
        q = Quotes(pairs)
        vp.prove(str(q) == text and isinstance(repr(q), str) and len(q) == len(pairs), "the text of quotes has the quotes of all levels")


def case_box(k):
    """a box in any state"""
    p = node(node(display="block"), display="block")
    n = p.children[0]
    x, y, w, h = vp.integer("x", -500, 500), vp.integer("y", -500, 500), vp.integer("w", 0, 500), vp.integer("h", 0, 500)
    px, py = vp.integer("px", -500, 500), vp.integer("py", -500, 500)
    if "new" not in k:
        p.layout.content_left, p.layout.content_top = px, py
        n.layout.content_left, n.layout.content_top = x, y
        n.layout.content_width, n.layout.content_height = w, h
        vp.prove(repr(n.layout) == "<Box (" + str(w) + "x" + str(h) + " @ " + str(px + x) + "," + str(py + y) + ")>", "the text of a box has its size and absolute position")
        vp.prove(n.layout.content_left == x and n.layout.absolute_content_left == px + x and n.layout.content_width == w, "printing a box changes nothing")
    if "reset" in k:
        n.layout.reset()
    if k != "set":
        vp.prove(isinstance(repr(n.layout), str) and isinstance(str(n.layout), str), "a box can be printed in any state")
        vp.prove(n.layout.content_left == 0 and n.layout.content_width == 0, "printing a box changes nothing")


case_box.over = ("new", "set", "reset")
