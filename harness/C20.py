"""There is no hidden state: what was done with other objects doesn't matter"""
import vp
from colosseum import colors, constants, parser, units, validators
from colosseum.constants import Choices
from colosseum.engine import layout
from spec.common import CSS, Display, Node, node, replaced, text
from spec.geometry import ATTRS, walk
from spec.grammar import NAMES, P
from spec.values import any_value, equal, identical

SIDES = ("top", "right", "bottom", "left")
SHORT = ("outline", "border", "border_top", "border_right", "border_bottom", "border_left", "margin", "padding", "border_width", "border_style", "border_color")


# ---------------------------------------------------------------- what is looked at
def style_of(kind):
    if kind == "fresh":
        return CSS()
    if kind == "styled":
        return CSS(display="block", width="50%", margin=(1, 2, 3), border_top="thin solid red", color="blue", cursor="url(x), help", quotes="'<' '>'", outline="dotted", clip="rect(1 2 3 4)")
    return CSS(display="inline", direction="rtl", margin_left="auto", border_spacing="1px 2em").copy()


def probe_style(kind):
    s = style_of(kind)
    out = {name: getattr(s, name) for name in NAMES}
    for name in SHORT:
        out[name] = str(getattr(s, name))
    out["keys"] = sorted(s.keys())
    out["str"] = str(s)
    return out


def probe_values():
    out = {"names": sorted(colors.NAMED_COLOR), "units": [str(getattr(units, n)) for n in units.__all__]}
    for t in ("5px", "5", "3em", "2%", "-7mm", "1vmin", "10deg", "px", "5pxx", "x"):
        out["units " + t] = result(parser.units, t)
    for t in ("red", "Red", "#fff", "#12345678", "rgb(1,2,3)", "hsla(1,2%,3%,0.5)", "#ggg", "reddish"):
        out["color " + t] = result(parser.color, t)
    for t in ("1px", "1px 2em", "1 2 3"):
        out["spacing " + t] = str(result(parser.border_spacing, t))
    for t in ("rect(1 2 3 4)", "rect(1,2,3,4)", "rect(1,2,3)"):
        out["rect " + t] = result(parser.rect, t)
    for t in ("'a' 'b'", "'a'", "'a' 'b' '<' '>'"):
        out["quotes " + t] = result(parser.quotes, t)
    for t in ("url(x)", "auto", "url(x), wait", "wait, url(x)"):
        out["cursor " + t] = str(result(parser.cursor, t))
    for t in ("thin solid red", "solid", "thin thin"):
        for f in (parser.border, parser.border_left, parser.outline):
            out["border " + t + f.__name__] = str(result(f, t))
    for t in ("5", "x", 7, None):
        out["number " + str(t)] = result(validators.is_number, t)
        out["integer " + str(t)] = result(validators.is_integer, t)
        out["range " + str(t)] = result(validators.is_integer(min_value=0, max_value=6), t)
    return out


def result(f, x):
    try:
        return f(x)
    except ValueError as e:
        return type(e).__name__


def probe_layout(kind):
    if kind == "block":
        root = node(node(display="block", height=10, margin_top=5, margin_left="auto", width=20), node(display="block", padding=3, border_width="thick"), node(display="none"), display="block", margin=7)
    else:
        root = node(replaced(3, 4, None, display="inline"), text(5, 6, display="inline", position="relative", top=3), display="block", width="10em")
    layout(Display(), root)
    out = {}
    i = 0
    for n in walk(root):
        i = i + 1
        for a in ATTRS:
            out["%d %s" % (i, a)] = getattr(n.layout, a) if n.layout is not None else "-"
        out["%d style" % i] = str(n.style)
    return out


PROBES = {"fresh": lambda: probe_style("fresh"), "styled": lambda: probe_style("styled"), "copied": lambda: probe_style("copied"), "values": probe_values,
          "block": lambda: probe_layout("block"), "inline": lambda: probe_layout("inline")}


# ---------------------------------------------------------------- what is done before
def attempt(f, *args):
    try:
        f(*args)
    except Exception:
        pass


def do_assign(name):
    s = CSS()
    setattr(s, name, any_value(name))
    attempt(setattr, s, name, "no such value")
    if vp.choose("delete", True, False):
        delattr(s, name)


def do_short():
    s = CSS()
    for name in SHORT:
        if name in ("margin", "padding", "border_width"):
            setattr(s, name, (1, vp.integer("v", 0, 50)))
        elif name == "border_style":
            s.border_style = ("solid", "dotted", "dashed")
        elif name == "border_color":
            s.border_color = "red"
        else:
            setattr(s, name, ("thick", "double", "#123"))
        getattr(s, name)
        attempt(setattr, s, name, ("thin", "x", object()))
    for name in SHORT:
        delattr(s, name)


def do_parse():
    n = vp.integer("n", -500, 500)
    for f, good, bad in ((parser.units, str(n) + "em", str(n) + "q"), (parser.color, "rgb(" + str(n) + ",2,3)", "rgb(" + str(n) + ")"), (parser.border_spacing, str(n) + " 3", "x"), (parser.rect, "rect(1 2 3 " + str(n) + ")", "rect()"),
                         (parser.quotes, "'a' 'b'", "'a'"), (parser.uri, "url(x)", "x"), (parser.cursor, "url(x), help", "help, help"), (parser.outline, "thick", "x"), (parser.border, "thick dashed", "x y"),
                         (validators.is_number, "3", "x"), (validators.is_integer, 3, "y"), (validators.is_percentage, "3%", "-3%")):
        attempt(f, good)
        attempt(f, bad)
    attempt(validators.is_integer(min_value=5, max_value=100), n)
    attempt(validators.is_number(min_value=n), 3)
    c = Choices("x", "auto", None, validators=[validators.is_color])
    attempt(c.validate, "x")
    attempt(c.validate, "y")
    str(c)


def do_arithmetic():
    n = vp.integer("n", -500, 500)
    for name in units.__all__:
        q = n * getattr(units, name)
        -q
        2 * q
        str(q)
    h = colors.hsl(n, 0.5, 0.5).rgb
    repr(h)


def do_layout(kind):
    h = vp.integer("h", 0, 100)
    root = node(node(display="block", height=h, margin_top=4), node(node(display="none"), display="block", position="relative", left=h), display="block", width=h,
                border_width=("thin", "medium", "thick", "2em"), margin="1vw", padding_top="3%")
    if kind == "refused":
        root = node(node(display="block", height=h, margin_top=4), node(display="block", float="left"), display="block")
    if kind == "inline":
        root = node(replaced(h, None, 0.5, display="inline"), display="block")
    attempt(layout, Display(dpi=vp.integer("dpi", 50, 200), width=vp.integer("W", 1, 2000), height=500, sizes=(2, 3, 4)), root, "html4")
    if kind == "again":
        root.children[0].style.height = 3
        root.children[0].style.display = "none"
        attempt(layout, Display(), root)


DO = {"short": do_short, "parse": do_parse, "arithmetic": do_arithmetic, "layout": lambda: do_layout("plain"), "refused": lambda: do_layout("refused"), "inline": lambda: do_layout("inline"), "again": lambda: do_layout("again")}


def compare(k, before, after):
    vp.prove(set(before) == set(after), "what was done with other objects doesn't matter (" + k + ")")
    for name in before:
        vp.prove(identical(before[name], after[name]) or equal(before[name], after[name]), "what was done with other objects doesn't matter (" + k + ": " + name + ")")


def case_state(k):
    what, look = k
    before = vp.aside(PROBES[look])
    DO[what]()
    compare(look, before, PROBES[look]())


case_state.over = [(d, p) for d in sorted(DO) for p in sorted(PROBES)]


def case_assign(name):
    before = vp.aside(probe_style, "fresh")
    do_assign(name)
    compare("fresh", before, probe_style("fresh"))


case_assign.over = sorted(NAMES)


def case_first(k):
    """also what is done first doesn't matter: a second object is as the first"""
    a = PROBES[k]()
    compare(k, a, PROBES[k]())


case_first.over = sorted(PROBES)


def case_late(k):
    """also when the same was looked at before"""
    what, look = k
    before = PROBES[look]()
    DO[what]()
    compare(look, before, PROBES[look]())


case_late.over = [(d, p) for d in sorted(DO) for p in sorted(PROBES)]
