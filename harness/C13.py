"""Colours are read as written"""
import vp
from colosseum.colors import NAMED_COLOR, hsl, rgb
from colosseum.parser import color
from colosseum.validators import is_color


def components(c, r, g, b, a, label):
    vp.prove(isinstance(c, rgb), label)
    vp.prove(c.r == r and c.g == g and c.b == b, label, at=vp.site(c, "r"))
    vp.prove(c.a == a, label + " (alpha)", at=vp.site(c, "a"))


def case_hash(k):
    """hexadecimal notations; for all digits"""
    text, value = "#", []
    for i in range(k):
        d, v = vp.hexdigit("d%d" % i)
        text = text + d
        value.append(v)
    c = color(text)
    label = "# and %d hexadecimal digits" % k
    if k < 6:
        parts = [v * 17 for v in value]
    else:
        parts = [value[i] * 16 + value[i + 1] for i in range(0, k, 2)]
    components(c, parts[0], parts[1], parts[2], parts[3] / 255 if len(parts) == 4 else 1, label)


case_hash.over = (3, 4, 6, 8)


def refuses(value, label):
    for fn in (color, is_color):
        try:
            fn(value)
        except ValueError:
            vp.prove(True, label)
            continue
        vp.prove(False, label)


def case_hash_length(k):
    text = "#"
    for i in range(k):
        text = text + vp.hexdigit("d%d" % i)[0]
    refuses(text, "another number of hexadecimal digits is refused")


case_hash_length.over = (0, 1, 2, 5, 7, 9, 10, 12)


def case_hash_other(k):
    """a character that isn't a hexadecimal digit, at any place"""
    n, at = k
    text = "#"
    for i in range(n):
        text = text + (vp.word("x", "ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ#;,.(%$", 1, 1) if i == at else vp.hexdigit("d%d" % i)[0])
    refuses(text, "other characters than hexadecimal digits are refused")


case_hash_other.over = [(n, i) for n in (3, 4, 6, 8) for i in range(n)]


def case_rgb(k):
    style, alpha = k
    r, g, b = vp.integer("r", -1000, 1000), vp.integer("g", -1000, 1000), vp.integer("b", -1000, 1000)
    a = vp.real("a", 0, 1)
    seps = {"tight": ",", "space": ", ", "wide": " , "}
    parts = [str(r), str(g), str(b)] + ([vp.numlit(a)] if alpha else [])
    inner = seps[style].join(parts)
    if style == "wide":
        inner = " " + inner + " "
    c = color(("rgba(" if alpha else "rgb(") + inner + ")")
    components(c, r, g, b, a if alpha else 1, "rgba() with its components" if alpha else "rgb() with its components")


case_rgb.over = [(s, a) for s in ("tight", "space", "wide") for a in (False, True)]


def case_hsl(k):
    style, alpha = k
    h, s, l = vp.integer("h", -1000, 1000), vp.integer("s", 0, 100), vp.integer("l", 0, 100)
    a = vp.real("a", 0, 1)
    seps = {"tight": ",", "space": ", ", "wide": " , "}
    parts = [str(h), str(s) + "%", str(l) + "%"] + ([vp.numlit(a)] if alpha else [])
    inner = seps[style].join(parts)
    if style == "wide":
        inner = " " + inner + " "
    c = color(("hsla(" if alpha else "hsl(") + inner + ")")
    label = "hsla() with its components" if alpha else "hsl() with its components"
    vp.prove(isinstance(c, hsl), label)
    vp.prove(c.h == h and c.s * 100 == s and c.l * 100 == l, label, at=vp.site(c, "h"))
    vp.prove(c.a == (a if alpha else 1), label + " (alpha)", at=vp.site(c, "a"))


def case_hsl_bare(k):
    """without the percent signs, hsl() is refused or means the same"""
    alpha, known = k
    h, s, l = (vp.integer("h", -1000, 1000), vp.integer("s", 0, 100), vp.integer("l", 0, 100)) if not known else known
    text = ("hsla(" if alpha else "hsl(") + str(h) + ", " + str(s) + ", " + str(l) + (", 0.5)" if alpha else ")")
    label = "hsla() with its components" if alpha else "hsl() with its components"
    try:
        c = color(text)
    except ValueError:
        vp.prove(True, label)
        return
    vp.prove(isinstance(c, hsl) and c.h == h and c.s * 100 == s and c.l * 100 == l, label, at=vp.site(c, "h"))
    vp.prove(c.a == (0.5 if alpha else 1), label + " (alpha)", at=vp.site(c, "a"))


case_hsl_bare.over = [(a, k) for a in (False, True) for k in (None, (120, 50, 25))]
case_hsl.over = [(s, a) for s in ("tight", "space", "wide") for a in (False, True)]


def case_count(k):
    """another number of components"""
    name, n = k
    parts = []
    for i in range(n):
        v = str(vp.integer("v%d" % i, 0, 100))
        parts.append(v + "%" if name.startswith("hsl") and i in (1, 2) else v)
    refuses(name + "(" + ",".join(parts) + ")", "another number of components is refused")


case_count.over = [("rgb", n) for n in (0, 1, 2, 4, 5)] + [("rgba", n) for n in (0, 1, 2, 3, 5)] + [("hsl", n) for n in (0, 1, 2, 4)] + [("hsla", n) for n in (0, 1, 3, 5)]


def case_component(k):
    """a component that isn't a number"""
    name, n, at = k
    parts = []
    for i in range(n):
        v = str(vp.integer("v%d" % i, 0, 100))
        v = v + "%" if name.startswith("hsl") and i in (1, 2) else v
        parts.append(vp.word("w", "abcdefghijklmopqrstuvwxyz-", 0) if i == at else v)
    refuses(name + "(" + ",".join(parts) + ")", "components that aren't numbers are refused")


case_component.over = [(name, n, i) for name, n in (("rgb", 3), ("rgba", 4), ("hsl", 3), ("hsla", 4)) for i in range(n)]


def case_parsed():
    r, h = rgb(vp.integer("r", 0, 255), 2, 3, 0.5), hsl(vp.integer("h", 0, 359), 0.5, 0.25)
    vp.prove(color(r) is r and color(h) is h and is_color(r) is r, "a colour that is already parsed is taken as it is")


def case_words():
    """any word that isn't a colour name"""
    w = vp.word("w", "abcdefghijklmnopqrstuvwxyz-_ ", 0)
    refuses(w + "-x", "other words aren't colours")
    refuses("x" + vp.word("w", "letters", 0) + "q", "other words aren't colours")


def case_objects(value):
    refuses(value, "other objects aren't colours")


case_objects.over = [None, 0, 5, 1.5, [], (), (1, 2, 3), [255, 0, 0], {}, object(), b"red", 1j, "", " ", "rgb", "rgba", "hsl", "hsla", "rgb(", "#", "rgb()", "hsl()", "transparent", "currentColor", "red ", " red", "red;"]


def case_names(k):
    """names are the same in any case"""
    vp.prove(color(k) is color(k.upper()) and color(k) is color(k.capitalize()), "the case of a colour name doesn't matter")
    vp.prove(isinstance(color(k), rgb), "a colour name is a colour")
    vp.prove(is_color(k) is color(k), "a colour name is a colour")


case_names.over = sorted(NAMED_COLOR)
