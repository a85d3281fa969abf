"""What the specifications share: the objects a user of the library provides."""
import vp
from colosseum.declaration import CSS
from colosseum.dimensions import Box, Size


class Display:
    def __init__(self, dpi=96, width=1024, height=768, sizes=(1, 5, 10)):
        self.dpi = dpi
        self.content_width = width
        self.content_height = height
        self.sizes = sizes

    def fixed_size(self, value):
        return self.sizes[("thin", "medium", "thick").index(value)]


class Node:
    """A node of the user's document tree"""

    def __init__(self, style=None, children=()):
        self.parent = None
        self.children = []
        for child in children:
            self.children.append(child)
            child.parent = self
        self.intrinsic = Size(self)
        self.layout = Box(self)
        self.style = style.copy(self) if style is not None else CSS()


def written(style):
    """the style with keywords that aren't the library's own string objects"""
    return {name: vp.fresh(value) if isinstance(value, str) else value for name, value in style.items()}


def node(*children, **style):
    return Node(CSS(**written(style)), children)


def replaced(iw=None, ih=None, ratio=None, /, **style):
    n = Node(CSS(**written(style)))
    n.intrinsic.is_replaced = True
    n.intrinsic.width = iw
    n.intrinsic.height = ih
    n.intrinsic.ratio = ratio
    return n


def text(iw, ih, /, **style):
    n = Node(CSS(**written(style)))
    n.intrinsic.width = iw
    n.intrinsic.height = ih
    return n
