"""The size of a length in pixels"""
import vp
from colosseum import units as u
from colosseum.parser import units
from spec.common import Display


class Font:
    def __init__(self, em, ex, ch):
        self.em, self.ex, self.ch = em, ex, ch


def number(kind):
    return vp.integer("n", -100000, 100000) if kind == "int" else vp.real("x", -100000, 100000)


def display():
    return Display(dpi=vp.integer("dpi", 1, 1000), width=vp.integer("W", 0, 5000), height=vp.integer("H", 0, 5000))


def font():
    return Font(vp.real("em", 0, 100), vp.real("ex", 0, 100), vp.real("ch", 0, 100))


def exact(name, n, d, f, size):
    """the size in pixels before it is rounded"""
    if name == "px":
        return n
    if name == "percent":
        return n * size / 100
    if name in ("em", "ex", "ch"):
        return n * getattr(f, name) * d.dpi / 72
    if name in ("vw", "vh"):
        return n * (d.content_width if name == "vw" else d.content_height) / 100
    if name == "vmin":
        return n * min(d.content_width, d.content_height) / 100
    if name == "vmax":
        return n * max(d.content_width, d.content_height) / 100
    return n * {"pt": 1, "pc": 12, "inch": 72, "cm": 28.3465, "mm": 2.83465}[name] * d.dpi / 72


NAMES = ("px", "em", "ex", "ch", "inch", "cm", "mm", "pt", "pc", "vw", "vh", "vmin", "vmax", "percent")


def case_px(k):
    name, kind = k
    n, d, f, size = number(kind), display(), font(), vp.integer("size", -5000, 5000)
    q = n * getattr(u, name)
    want = round(64 * exact(name, n, d, f, size))
    label = " (" + name + ")"
    vp.prove(q.lu(display=d, font=f, size=size) == want, "a length has its size in 64ths of a pixel" + label)
    vp.prove(q.px(display=d, font=f, size=size) * 64 == want, "a length has its size in pixels, rounded to 64ths" + label)
    vp.prove(q.val == n, "resolving a length doesn't change it" + label)


case_px.over = [(n, kind) for n in NAMES for kind in ("int", "real")]


def case_int(name):
    """whole numbers of pixels are integers"""
    got = (vp.integer("n", -100000, 100000) * u.px).px(display=display(), font=font(), size=10)
    vp.prove(isinstance(got, int), "a whole number of pixels is an integer")
    half = vp.real("x", -100000, 100000) * u.px
    vp.prove(isinstance(half.px(), (int, float)), "a size is a number")


case_int.over = ("px",)


def case_neg(name):
    """the opposite length has the opposite size"""
    n, d, f, size = vp.real("x", -100000, 100000), display(), font(), vp.integer("size", -5000, 5000)
    q = n * getattr(u, name)
    vp.prove((-q).lu(display=d, font=f, size=size) == round(-64 * exact(name, n, d, f, size)), "the opposite length has the opposite size (" + name + ")")


case_neg.over = NAMES


def case_zero(name):
    q = 0 * getattr(u, name)
    vp.prove(q.px(display=display(), font=font(), size=vp.integer("size", -5000, 5000)) == 0, "a length of 0 has no size (" + name + ")")


case_zero.over = NAMES


def case_angle(k):
    name, scale = k
    n = vp.real("x", -100000, 100000)
    vp.prove((n * getattr(u, name)).deg() == n * scale, "an angle has its size in degrees (" + name + ")")
    vp.prove((-(n * getattr(u, name))).deg() == -n * scale, "an angle has its size in degrees (" + name + ")")


case_angle.over = [("deg", 1), ("grad", 0.9), ("turn", 360)]
