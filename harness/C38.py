"""Choices and ranges accept exactly what they are made of"""
import vp
from colosseum.constants import Choices
from colosseum.exceptions import ValidationError
from colosseum.units import Unit
from colosseum.validators import is_color, is_integer, is_length, is_number, is_percentage
from spec.common import CSS
from spec.grammar import NAMES, P

CONSTANTS = ("auto", "none-such", "left", None, "inherit")


def accepts(c, value, want, label):
    try:
        got = c.validate(value)
    except ValueError:
        vp.prove(False, label)
        return
    vp.prove(got == want, label)


def refuses(f, value, label):
    try:
        f(value)
    except ValueError:
        vp.prove(True, label)
        return
    vp.prove(False, label)


def subsets(items):
    out = [()]
    for x in items:
        out = out + [s + (x,) for s in out]
    return out


def case_constants(k):
    given, explicit = k
    c = Choices(*given, explicit_defaulting_constants=list(explicit))
    for value in CONSTANTS + ("initial", "none", "AUTO", "", 0, False):
        if value == "none":
            if None in given:
                accepts(c, value, None, "none is None")
            else:
                refuses(c.validate, value, "what isn't among the constants is refused")
        elif value in given or value in explicit:
            accepts(c, value, value, "a constant is accepted")
        else:
            refuses(c.validate, value, "what isn't among the constants is refused")
    w = vp.word("w", "abcdefghijklmnopqrstuvwxyz-", 0)
    for value in given + explicit + ("none",):
        vp.assume(w != value)
    refuses(c.validate, w, "what isn't among the constants is refused")


case_constants.over = [(s, e) for s in subsets(CONSTANTS) for e in ((), ("initial",), ("initial", "inherit"))]


def case_validators(k):
    """with validators, their values are accepted as well, and converted"""
    n = vp.integer("n", -1000, 1000)
    c = Choices("auto", None, validators=list(k))
    accepts(c, "auto", "auto", "a constant is accepted")
    accepts(c, None, None, "a constant is accepted")
    accepts(c, "none", None, "none is None")
    if is_integer in k and (is_length not in k or k.index(is_integer) < k.index(is_length)):
        accepts(c, str(n), n, "the first validator that accepts a value converts it")
        accepts(c, n, n, "the first validator that accepts a value converts it")
    elif is_length in k:
        vp.prove(isinstance(c.validate(str(n)), Unit) and c.validate(n).val == n, "the first validator that accepts a value converts it")
    if is_color in k:
        vp.prove(c.validate("red").r == 255, "the first validator that accepts a value converts it")
    else:
        refuses(c.validate, "red", "what no validator accepts is refused")
    if is_length in k:
        vp.prove(c.validate(str(n) + "em").val == n, "the first validator that accepts a value converts it")
    else:
        refuses(c.validate, str(n) + "em", "what no validator accepts is refused")
    refuses(c.validate, "left", "what no validator accepts is refused")
    refuses(c.validate, object(), "what no validator accepts is refused")


case_validators.over = [(), (is_length,), (is_integer,), (is_color,), (is_length, is_color), (is_integer, is_length), (is_length, is_integer), (is_color, is_integer)]


def case_text(k):
    given, validators = k
    c = Choices(*given, validators=list(validators))
    want = sorted(["none" if x is None else x for x in given] + [v.description for v in validators])
    vp.prove(str(c) == ", ".join(want), "the text of choices lists them in alphabetical order")


case_text.over = [(s, v) for s in subsets(CONSTANTS) for v in ((), (is_length,), (is_color, is_integer))]
case_text.orders = True


# ---------------------------------------------------------------- ranges
def case_range(k):
    """bounds are included"""
    f, kind, low, high = k
    lo, hi = vp.integer("lo", -500, 500), vp.integer("hi", -500, 500)
    n = vp.integer("n", -1000, 1000) if kind == "int" else vp.real("x", -1000, 1000)
    given = {}
    if low:
        given["min_value"] = lo
    if high:
        given["max_value"] = hi
    text = vp.choose("text", False, True)
    try:
        got = f(**given)(vp.numlit(n) if text else n)
    except ValidationError:
        vp.prove((low and n < lo) or (high and n > hi), "a number within the bounds is accepted")
        return
    vp.prove(not (low and n < lo) and not (high and n > hi), "a number outside of the bounds is refused")
    vp.prove(got == n, "a number is taken as it is")
    vp.prove(isinstance(got, int if f is is_integer else float), "the number has the type of the validator")


case_range.over = [(f, k, lo, hi) for f, k in ((is_number, "int"), (is_number, "real"), (is_integer, "int")) for lo in (False, True) for hi in (False, True) if lo or hi]


def case_zero(k):
    """0 is a bound like any other"""
    f, which = k
    n = vp.integer("n", -1000, 1000)
    try:
        got = f(**{which: 0})(n)
    except ValidationError:
        vp.prove(n < 0 if which == "min_value" else n > 0, "a number within the bounds is accepted")
        return
    vp.prove(n >= 0 if which == "min_value" else n <= 0, "a number outside of the bounds is refused")
    vp.prove(got == n, "a number is taken as it is")


case_zero.over = [(f, w) for f in (is_number, is_integer) for w in ("min_value", "max_value")]


def case_plain(k):
    """without bounds, the validator is applied at once"""
    n = vp.integer("n", -1000, 1000)
    for value in (n, str(n), " " + str(n) + " "):
        got = k(value)
        vp.prove(got == n and isinstance(got, int if k is is_integer else float), "a number is taken as it is")
    for value in ("x", "", None, [], "1px", object()):
        refuses(k, value, "what isn't a number is refused")
    w = vp.word("w", "abcdefghjklmopqrstuvwxyz #%", 0)
    refuses(k, w, "what isn't a number is refused")


case_plain.over = (is_number, is_integer)


# ---------------------------------------------------------------- the message of a refusal
KIND = {"length": "<length>", "color": "<color>", "integer": "<integer>", "rect": "<rect>", "quotes": "[<string> <string>]+", "border-spacing": "<length> <length>?"}


def case_message(name):
    s = CSS()
    try:
        setattr(s, name, "no such value")
    except ValueError as e:
        text = str(e)
        vp.prove("'no such value'" in text and "'" + name + "'" in text, "the message of a refusal has the value and the property (" + name + ")")
        listed = text.split("Valid values are: ")[1].split(", ")
        keywords, kind, initial = P[name]
        for word in keywords:
            vp.prove(word in listed, "the message of a refusal lists the valid values (" + name + ")")
        if kind in KIND:
            vp.prove(KIND[kind] in listed, "the message of a refusal lists the valid values (" + name + ")")
        return
    vp.prove(False, "what isn't valid is refused")


case_message.over = NAMES
