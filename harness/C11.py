"""Parsers and validators return a value of their kind or raise ValueError, whatever they are given"""
import vp
from colosseum import parser, units, validators
from colosseum.colors import hsl, rgb
from colosseum.exceptions import ValidationError
from colosseum.shapes import Rect
from colosseum.units import Unit
from colosseum.wrappers import BorderSpacing, Cursor, Quotes, Uri
from spec.common import CSS

FUNCTIONS = {
    "units": (parser.units, (Unit,)), "color": (parser.color, (rgb, hsl)), "border_spacing": (parser.border_spacing, (BorderSpacing,)), "rect": (parser.rect, (Rect,)),
    "quotes": (parser.quotes, (Quotes,)), "uri": (parser.uri, (Uri,)), "cursor": (parser.cursor, (Cursor,)), "outline": (parser.outline, (dict,)), "border": (parser.border, (dict,)),
    "border_top": (parser.border_top, (dict,)), "border_right": (parser.border_right, (dict,)), "border_bottom": (parser.border_bottom, (dict,)), "border_left": (parser.border_left, (dict,)),
    "is_number": (validators.is_number, (float,)), "is_integer": (validators.is_integer, (int,)), "is_length": (validators.is_length, (Unit,)), "is_percentage": (validators.is_percentage, (units.Percent,)),
    "is_color": (validators.is_color, (rgb, hsl)), "is_border_spacing": (validators.is_border_spacing, (BorderSpacing,)), "is_rect": (validators.is_rect, (Rect,)), "is_quote": (validators.is_quote, (Quotes,)),
    "is_uri": (validators.is_uri, (Uri,)), "is_cursor": (validators.is_cursor, (Cursor,)),
}
NAMES = sorted(FUNCTIONS)


def total(name, value):
    """(any exception but ValueError leaves the case and is reported)"""
    fn, kinds = FUNCTIONS[name]
    try:
        got = fn(value)
    except ValidationError:
        vp.prove(name.startswith("is_"), "validators raise ValidationError, parsers ValueError (" + name + ")")
        return None
    except ValueError:
        vp.prove(not name.startswith("is_"), "validators raise ValidationError, parsers ValueError (" + name + ")")
        return None
    vp.prove(isinstance(got, kinds), "the result is a value of the kind (" + name + ")")
    return got


OBJECTS = [None, True, False, 0, 1, -3, 2.5, 1j, "", " ", "x", "0", "1px", "auto", "none", "red", "#fff", "#ggg", "url(x)", "rect(1 2 3 4)", "'a' 'b'", "thin solid", b"", b"1px", (), (1,), (1, 2), (1, 2, 3),
           ("thin", "solid", "red"), ("thin", None), (None,), ((),), ([],), (object(),), [], [1], [[1, 2]], [("a", "b")], [("a", 1)], ["a", "b"], ["url(x)", "help"], {}, {"a": 1}, {1: 2}, set(), {1}, frozenset(), object(), object, len,
           lambda: 1, range(0), range(2), range(3), units.px, 3 * units.em, units.deg, rgb(1, 2, 3), hsl(1, 0.5, 0.5), BorderSpacing(1 * units.px), Quotes([("a", "b")]), Uri("x"), Cursor(["auto"]), Cursor([]),
           Rect(1, 2, 3, 4), CSS(), CSS, units, ValueError("x"), "1px 2px 3px 4px 5px", "rgb(,,)", "rgb(1,2,3", "hsl(1,2,3)", "rgba(1,2,3,x)", "hsla(,,,)", "#12345", "%", "px", "e", "-", "+", ".", "1e5px", "--1px", "1 px", ",", ", ,",
           "url(", ")", "url()", "url(')", "url('')", "rect(", "rect()", "rect(,,,)", "rect(   )", "' '", "''", "'", "' ' ' '", "\"' '\"", "b'a' b'b'", "[] []", "{} {}", "(1) (2)", "0x10 1", "1/0 2", "__import__('os') 'x'", "f'x' 'y'",
           "'a' 'b' ()", "None None", "'a'*9 'b'", "'\\x' 'b'", "'\\N{x}' 'b'", "(" * 300 + " x", "\x00 \x00", "'\x00' 'b'", "é", "١px", "１px", "\u2028", "\t1px\n", "1_0px", "_1px", "1__0", "infpx", "nan", "-inf", "1e999px"]


def case_objects(name):
    for value in OBJECTS:
        total(name, value)


case_objects.over = NAMES


def case_word(k):
    """any word"""
    name, before, after = k
    w = vp.word("w", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_#%/:;!?&*<>", 0)
    total(name, before + w + after)


AROUND = {"units": [("", ""), ("", "px"), ("-", "em"), ("1", "%"), (" ", " ")], "color": [("", ""), ("#", ""), ("rgb(", ")"), ("rgb(1,2,", ")"), ("rgba(1,2,3,", ")"), ("hsl(", ",3%,4%)"), ("hsl(1,", ",4%)"), ("hsla(1,2%,3%,", ")"), ("rgb", ""), ("hsla", "")],
          "border_spacing": [("", ""), ("1px ", ""), ("", " 2px"), ("1 2 ", "")], "rect": [("", ""), ("rect(", ")"), ("rect(1,2,3,", ")"), ("rect(", " 2 3 4)"), ("rect(1", "")],
          "quotes": [("", ""), ("'", "' 'b'"), ("", " 'b'"), ("'a' 'b' ", "")], "uri": [("", ""), ("url(", ")"), ("url('", "')"), ("url(\"", ")"), ("url", "")],
          "cursor": [("", ""), ("url(", ")"), ("url(x), ", ""), ("auto,", ""), ("", ",help")], "outline": [("", ""), ("thin ", ""), ("", " solid"), ("thin solid red ", "")]}
ALIKE = {"is_length": "units", "is_percentage": "units", "is_number": "units", "is_integer": "units", "is_color": "color", "is_border_spacing": "border_spacing", "is_rect": "rect", "is_quote": "quotes", "is_uri": "uri",
         "is_cursor": "cursor", "border": "outline", "border_top": "outline", "border_right": "outline", "border_bottom": "outline", "border_left": "outline"}
case_word.over = [(n, a, b) for n in NAMES for a, b in AROUND[ALIKE.get(n, n)]]


def case_digits(k):
    """any word with digits"""
    name, before, after = k
    w = vp.word("w", "0123456789.e-+_", 0)
    total(name, before + w + after)


case_digits.over = [(n, a, b) for n in NAMES for a, b in AROUND[ALIKE.get(n, n)] if n in AROUND or n.startswith("is_")]


def case_number(k):
    name, kind = k
    total(name, vp.integer("n", -1000000, 1000000) if kind == "int" else vp.real("x", -1000000, 1000000))


case_number.over = [(n, k) for n in NAMES for k in ("int", "real")]


def case_argument(name):
    """what is given isn't changed"""
    for value in ([], [1], ["thin", "solid"], ["url(x)", "help"], [["a", "b"]], ["1px", "2px"], ["thin", "x"], ["help", "auto"]):
        old = [list(x) if isinstance(x, list) else x for x in value]
        total(name, value)
        vp.prove(value == old, "the argument isn't changed (" + name + ")")


case_argument.over = NAMES
