"""Every module can be imported, and everything its functions refer to is defined"""
import vp
from colosseum import colors, constants, units, utils

MODULES = vp.modules()


def case_module(name):
    """(importing the module is part of the analysis; an exception leaves the case)"""
    bad, seen = vp.unresolved(name)
    vp.prove(len(bad) == 0, "every name and call of the functions of " + name + " resolves", at=str(bad))


case_module.over = MODULES


def case_exports():
    for name in units.__all__:
        vp.prove(hasattr(units, name), "what a module exports is defined")


AXES = {"leading": {"column": "top", "row": "left"}, "trailing": {"column": "bottom", "row": "right"}, "position": {"column": "top", "row": "left"}, "dimension": {"column": "height", "row": "width"}}


def case_axes(name):
    for axis, want in AXES[name].items():
        vp.prove(getattr(utils, name)(getattr(constants, axis.upper())) == want, "the sides of an axis")


case_axes.over = sorted(AXES)
