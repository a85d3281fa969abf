"""HSL colours are converted to RGB as CSS does"""
import vp
from colosseum.colors import hsl, rgb
from colosseum.parser import color


def primary(p, q, t):
    """CSS Color 3, section 4.2.4; t is a hue in sixths of a turn"""
    if t < 0:
        t = t + 6
    if t >= 6:
        t = t - 6
    if t < 1:
        return p + (q - p) * t
    if t < 3:
        return q
    if t < 4:
        return p + (q - p) * (4 - t)
    return p


def want(h, s, l):
    """the components in [0, 1]; h in degrees in [0, 360)"""
    if 2 * l <= 1:
        q = l * (s + 1)
    else:
        q = l + s - l * s
    p = l * 2 - q
    t = h / 60
    return primary(p, q, t + 2), primary(p, q, t), primary(p, q, t - 2)


def check(c, h, s, l, a):
    got = c.rgb
    r, g, b = want(h, s, l)
    vp.prove(isinstance(got, rgb), "an HSL colour has an RGB colour")
    vp.prove(got.r == round(r * 255), "the red of an HSL colour", at=vp.site(got, "r"))
    vp.prove(got.g == round(g * 255), "the green of an HSL colour", at=vp.site(got, "g"))
    vp.prove(got.b == round(b * 255), "the blue of an HSL colour", at=vp.site(got, "b"))
    vp.prove(got.a == a, "the alpha of an HSL colour", at=vp.site(got, "a"))
    vp.prove(c.h == c.h and c.s == s and c.l == l and c.a == a, "converting a colour doesn't change it")


def case_real(k):
    """all hues of a sixth of a turn"""
    h, s, l, a = vp.real("h", k * 60, k * 60 + 60), vp.real("s", 0, 1), vp.real("l", 0, 1), vp.real("a", 0, 1)
    vp.assume(h < k * 60 + 60)
    check(hsl(h, s, l, a), h, s, l, a)


case_real.over = range(6)


def case_integer(k):
    h, s, l = vp.integer("h", k * 60, k * 60 + 59), vp.integer("s", 0, 100), vp.integer("l", 0, 100)
    c = color("hsl(" + str(h) + "," + str(s) + "%," + str(l) + "%)")
    check(c, h, s / 100, l / 100, 1)


case_integer.over = range(6)


def case_turns(k):
    """hues outside of a full turn"""
    turns, sixth = k
    h, s, l = vp.integer("h", sixth * 60, sixth * 60 + 59), vp.real("s", 0, 1), vp.real("l", 0, 1)
    check(hsl(h + 360 * turns, s, l, 1), h, s, l, 1)


case_turns.over = [(t, s) for t in (-2, -1, 1, 2) for s in range(6)]


def case_edges(h):
    """the hues between two sixths, and the corners of the colour space"""
    s, l = vp.real("s", 0, 1), vp.real("l", 0, 1)
    check(hsl(h, s, l, 1), h, s, l, 1)
    full = hsl(h, 1, 0.5).rgb
    vp.prove((full.r, full.g, full.b) == {0: (255, 0, 0), 60: (255, 255, 0), 120: (0, 255, 0), 180: (0, 255, 255), 240: (0, 0, 255), 300: (255, 0, 255)}[h], "the pure hues")


case_edges.over = (0, 60, 120, 180, 240, 300)


def case_gray():
    h, l = vp.integer("h", -720, 720), vp.real("l", 0, 1)
    c = hsl(h, 0, l).rgb
    vp.prove(c.r == round(255 * l) and c.g == c.r and c.b == c.r, "without saturation, a colour is gray")
    black, white = hsl(h, vp.real("s", 0, 1), 0).rgb, hsl(h, vp.real("s", 0, 1), 1).rgb
    vp.prove(black.r == 0 and black.g == 0 and black.b == 0, "without lightness, a colour is black")
    vp.prove(white.r == 255 and white.g == 255 and white.b == 255, "with full lightness, a colour is white")


def case_range(k):
    """components are between 0 and 255"""
    h, s, l = vp.real("h", k * 60, k * 60 + 60), vp.real("s", 0, 1), vp.real("l", 0, 1)
    c = hsl(h, s, l).rgb
    for v in (c.r, c.g, c.b):
        vp.prove(isinstance(v, int), "the components are integers")


case_range.over = range(6)


def case_rgb():
    c = rgb(vp.integer("r", 0, 255), vp.integer("g", 0, 255), vp.integer("b", 0, 255), vp.real("a", 0, 1))
    vp.prove(c.rgb.r == c.r and c.rgb.g == c.g and c.rgb.b == c.b and c.rgb.a == c.a, "an RGB colour is its own RGB colour")
