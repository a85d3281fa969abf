"""Documents whose nodes have any value for what the layout shouldn't look at: it is left open until it is read, and then every value is considered"""
import vp
from spec.common import CSS, Box, Display, Size, written  # noqa
from spec.grammar import P

# the properties that the layout refers to
RELEVANT = ("display", "position", "float", "top", "right", "bottom", "left", "direction", "width", "height", "min_width", "max_width", "min_height", "max_height")
OTHER = {}
EVERY = {}
for _name in P:
    _k = P[_name][1]
    EVERY[_name] = P[_name][0] + ({"length": (3,), "color": ("red",), "integer": (7,), "rect": ("rect(1px, 2px, 3px, 4px)",), "quotes": ("'a' 'b'",), "border-spacing": (4,), "cursor": ("help",)}[_k] if _k else ())
    if _name not in RELEVANT and not _name.startswith(("margin_", "padding_")) and not (_name.startswith("border_") and _name.endswith("_width")):
        OTHER[_name] = EVERY[_name]
LIMITS = {"min_width": ("auto", 7), "max_width": ("none", 7), "min_height": ("auto", 7), "max_height": ("none", 7), "direction": ("ltr", "rtl")}
SIZES = {"width": (None, 11), "height": (None, 11), "ratio": (None, 2), "exact_width": (True, False), "exact_height": (True, False)}
COUNT = [0]
ODD = [0]  # how many properties aren't as they are initially; one at a time, so that the cases are their sum and not their product


class Open:
    """An object some of whose attributes are open"""

    def __init__(self, real, options):
        COUNT[0] += 1
        self.__dict__["real"] = real
        self.__dict__["open"] = dict(options)
        self.__dict__["tag"] = "node %d " % COUNT[0]

    def __getattr__(self, name):
        if name in self.__dict__["open"]:
            options = self.__dict__["open"].pop(name)
            if ODD[0] == 0 and vp.choose(self.__dict__["tag"] + name + " is initial", (True, False)) is False:
                ODD[0] += 1
                setattr(self.__dict__["real"], name, vp.choose(self.__dict__["tag"] + name, options))
        return getattr(self.__dict__["real"], name)

    def __setattr__(self, name, value):
        self.__dict__["open"].pop(name, None)
        setattr(self.__dict__["real"], name, value)

    def __delattr__(self, name):
        self.__dict__["open"].pop(name, None)
        delattr(self.__dict__["real"], name)

    def __getitem__(self, name):
        return getattr(self, name.replace("-", "_"))


class Loose:
    """so that a value that is chosen while the document is laid out doesn't make the layout dirty"""
    layout = None


class Node:
    """A node whose style is CSS(**style), other properties being open"""

    def __init__(self, children, style, sizes, limits=()):
        self.parent = None
        self.children = []
        for child in children:
            self.children.append(child)
            child.parent = self
        self.intrinsic = Open(Size(Loose()), {n: v for n, v in SIZES.items() if n not in sizes})
        for n, v in sizes.items():
            setattr(self.intrinsic, n, v)
        self.layout = Box(self)
        options = dict(OTHER)
        for n in limits:
            options[n] = LIMITS[n]
        self.style = Open(CSS(**written(style)), {n: v for n, v in options.items() if n not in style})


def node(*children, **style):
    return Node(children, style, {})


def replaced(iw=None, ih=None, ratio=None, /, **style):
    return Node((), style, {"is_replaced": True, "width": iw, "height": ih, "ratio": ratio})


def text(iw, ih, /, **style):
    return Node((), style, {"width": iw, "height": ih}, tuple(LIMITS))


class Style(CSS):
    """A style of which the properties that weren't set are open: one of them may turn out to have been set before when it is read"""

    def __getattr__(self, name):
        own = self.__dict__
        if name[:1] == "_" and name[1:] in own.get("open", ()):
            p = name[1:]
            options = own["open"].pop(p)
            if ODD[0] == 0 and vp.choose(p + " is initial", (True, False)) is False:
                ODD[0] += 1
                node = own["owner"]
                if node is not None:
                    layout, node.layout = node.layout, None
                setattr(self, p, vp.choose(p, options))
                if node is not None:
                    node.layout = layout
                if name in own:
                    return own[name]
        raise AttributeError(name)


def opened(style, owner=None, without=()):
    """the style, other properties being open"""
    style.__class__ = Style
    style.owner = owner
    style.open = {n: v for n, v in EVERY.items() if n not in without}
    return style


def busy(s):
    """the style with all properties set"""
    for i, p in enumerate(sorted(EVERY)):
        setattr(s, p, EVERY[p][-1 - i % 2 if len(EVERY[p]) > 1 else 0])
    return s
