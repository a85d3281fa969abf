"""A value that isn't valid is refused with ValueError, and changes nothing"""
import vp
from colosseum import units
from colosseum.colors import rgb
from colosseum.wrappers import Cursor
from spec.common import CSS, Node, node
from spec.grammar import ALL, DIRECTIONAL, NAMES, P, SHORTHAND
from spec.lazy import opened
from spec.values import identical, snapshot, unchanged


def outcome(fn):
    """'accepted' or 'refused'; any other exception leaves the case and is reported"""
    try:
        fn()
    except ValueError:
        return "refused"
    return "accepted"


def prepared():
    """a style with many properties set, of a node that is laid out"""
    n = Node(CSS(margin_top=3, border_left_style="solid", border_right_color="red", outline_width="thin", z_index=3), [node()])
    n.layout.dirty = False
    return n


def check(n, name, value):
    s = n.style
    old = snapshot(s)
    r = outcome(lambda: setattr(s, name, value))
    if r == "refused":
        vp.prove(unchanged(s, old), "a refused value leaves the style unchanged (" + name + ")")
        if name not in DIRECTIONAL:
            vp.prove(n.layout.dirty is False and n.children[0].layout.dirty is False, "a refused value doesn't make the layout invalid (" + name + ")")
    else:
        vp.prove(True, "a value is accepted or refused with ValueError (" + name + ")")


def objects():
    return [object(), CSS(), {}, {"a": 1}, {"a"}, b"auto", lambda: 1, CSS, 1j, (), [], [None], (1, 2, 3, 4, 5), "", " ", "auto auto", ("auto", "none", "x"),
            True, [[]], [()], [("a", "b"), 3], ("a",), (("",),), (("a", 1),), "'a' 'b' 'c'", "'", "'' ''", "1 2", "f() g()", "rect()", "rect(1,2,3)", "rect(1 2 3 4", "rect(a,b,c,d)",
            "url(", "url(a), b", "auto, url(a)", "auto, auto", ["url(a)", 3], "#", "#12", "#ggg", "#12345", "rgb(1,2)", "rgb(a,b,c)", "rgba(1,2,3,x)", "hsl(1,2,x)", "hsla(1,2%,3%)",
            "rgb", "hsla", "solid solid", "thin thin", "1px solid red blue", "red solid unknown", ["thin", "thin"], [1, 2], 2 * units.deg, "3deg", "1 px", "px", "--1px", "1e", ",", "1px,2px",
            rgb(1, 2, 3), 5 * units.em, (3 * units.px, "x"), Cursor([]), ("thin", object()), (object(),), [CSS()]]


def case_objects(name):
    for value in objects():
        check(prepared(), name, value)


case_objects.over = ALL


def case_words(name):
    """any word at all"""
    check(prepared(), name, vp.word("w", "abdefghilmoprstuwxyz-", 1))


case_words.over = ALL


def case_numbers(name):
    check(prepared(), name, vp.choose("kind", vp.integer("v", -1000, 1000), vp.real("x", -1000, 1000), str(vp.integer("v", -1000, 1000)),
                                      vp.numlit(vp.real("x", -1000, 1000)), vp.numlit(vp.real("x", -1000, 1000)) + "em"))


case_numbers.over = ALL


def case_tuples(name):
    """directional properties: a valid prefix, then something else"""
    good = {"margin": 5, "padding": "3em", "border_width": "thick", "border_style": "dashed", "border_color": "green"}[name]
    for n in range(0, 6):
        for bad in range(0, n):
            value = tuple(object() if i == bad else good for i in range(n))
            p = prepared()
            old = snapshot(p.style)
            r = outcome(lambda: setattr(p.style, name, value))
            vp.prove(r == "refused", "an invalid direction is refused (" + name + ")")
            vp.prove(unchanged(p.style, old), "a refused value leaves the style unchanged (" + name + ")")


case_tuples.over = sorted(DIRECTIONAL)


def case_parts(k):
    """border and outline: valid parts, then an invalid one"""
    name, parts = k
    p = prepared()
    old = snapshot(p.style)
    r = outcome(lambda: setattr(p.style, name, parts))
    vp.prove(r == "refused", "an invalid part is refused (" + name + ")")
    vp.prove(unchanged(p.style, old) and p.layout.dirty is False, "a refused value leaves the style unchanged (" + name + ")")


BAD = ["thin solid xyz", "xyz thin solid", "solid dotted", "thin 3px", "red blue", "thin solid red 3px", ["thin", "solid", "xyz"], ("red", object()), 5, 0, "", None, [], {"a": 1}, ["thin solid"]]
case_parts.over = [(n, b) for n in sorted(SHORTHAND) for b in BAD]


def case_items(k):
    """the same through item access and update()"""
    name, how = k
    for value in (object(), "no such value", (), {"a": 1}):
        p = prepared()
        s = p.style
        old = snapshot(s)
        if how == "item":
            def put():
                s[name.replace("_", "-")] = value
        elif how == "update":
            def put():
                s.update(**{name: value})
        else:
            def put():
                CSS(**{name: value})
        r = outcome(put)
        if r == "refused":
            vp.prove(unchanged(s, old) and p.layout.dirty is False, "a refused value leaves the style unchanged (" + name + ")")


case_items.over = [(n, h) for n in ALL for h in ("item", "update", "new")]


def case_unknown(k):
    """names that no property has"""
    w = vp.word("w", "abcdefghijklmnopqrstuvwxyz-_", 1) if k == "any" else k
    if k == "any":
        for n in ALL:
            vp.assume(w.replace("-", "_") != n)
    p = prepared()
    s = p.style
    old = snapshot(s)
    errors = 0
    try:
        s[w]
    except KeyError:
        errors = errors + 1
    try:
        s[w] = "auto"
    except KeyError:
        errors = errors + 1
    try:
        del s[w]
    except KeyError:
        errors = errors + 1
    try:
        s.update(**{w: 1})
    except NameError:
        errors = errors + 1
    try:
        CSS(**{w: 1})
    except NameError:
        errors = errors + 1
    vp.prove(errors == 5, "unknown names are refused")
    vp.prove(unchanged(s, old) and p.layout.dirty is False, "an unknown name leaves the style unchanged")


case_unknown.over = ["_node", "dirty", "engine", "", "margin top", "Margin", "marginTop", "margin__top", "keys", "copy", "_margin_top", "font", "font-size", "line-height", "content", "flex", "grid", "__class__"]


def case_among(name):
    """whatever other properties are"""
    for value in [object(), None, {}, b"auto", (), [None], "", "auto auto", "bogus", "rect(1,2,3)", "#12", "rgb(1,2)", "1 px", 2 * units.deg, "solid red 3px", (1, 2, 3, 4, 5), (3 * units.px, "x"), "url(a), b"]:
        s = opened(CSS())
        vp.prove(outcome(lambda: setattr(s, name, value)) == outcome(lambda: setattr(CSS(), name, value)), "whether a value is refused doesn't depend on other properties (" + name + ")")


case_among.over = ALL
