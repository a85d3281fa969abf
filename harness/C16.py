"""Rects, border spacings, quotes, urls and cursors are read as written"""
import vp
from colosseum import units as u
from colosseum.parser import border_spacing, cursor, quotes, rect, uri
from colosseum.shapes import Rect
from colosseum.validators import is_border_spacing, is_cursor, is_quote, is_rect, is_uri
from colosseum.wrappers import BorderSpacing, Cursor, Quotes, Uri
from spec.common import CSS
from spec.grammar import CURSORS, neighbours


def refuses(fns, value, label):
    for fn in fns:
        try:
            fn(value)
        except ValueError:
            vp.prove(True, label)
            continue
        vp.prove(False, label)


# ---------------------------------------------------------------- rect
def four():
    return [vp.integer("a", -500, 500), vp.integer("b", -500, 500), vp.real("c", -500, 500), vp.integer("d", -500, 500)]


def case_rect(k):
    sep, outer, units = k
    n = four()
    names = ["", "em", "px", "cm"] if units else ["", "", "", ""]
    text = outer[0] + "rect(" + outer[1] + sep.join(vp.numlit(x) + s for x, s in zip(n, names)) + outer[1] + ")" + outer[0]
    r = rect(text)
    kinds = [u.px, u.em, u.px, u.cm] if units else [u.px] * 4
    vp.prove(isinstance(r, Rect), "a rect has the four lengths, in their order")
    vp.prove(r.top == n[0] * kinds[0] and r.right == n[1] * kinds[1] and r.left == n[2] * kinds[2] and r.bottom == n[3] * kinds[3], "a rect has the four lengths, in their order")
    vp.prove(is_rect(text) == r, "a rect has the four lengths, in their order")
    s = CSS(clip=text)
    vp.prove(s.clip == r, "a rect has the four lengths, in their order")


case_rect.over = [(s, o, un) for s in (",", ", ", " , ", " ", "  ") for o in (("", ""), (" ", " "), ("  ", "  ")) for un in (False, True)]


def case_rect_equal(i):
    """rects are equal if all their sides are"""
    n, m = [vp.integer("n%d" % j, -500, 500) for j in range(4)], vp.integer("m", -500, 500)
    other = list(n)
    other[i] = m
    a, b = Rect(*[x * u.px for x in n]), Rect(*[x * u.px for x in other])
    vp.prove((a == b) is (n[i] == m), "rects are equal if all their sides are")
    vp.prove(rect(a) is a and is_rect(a) is a, "a rect that is already parsed is taken as it is")
    vp.prove(a != "rect" and a != None, "rects are equal if all their sides are")  # noqa: E711
    vp.prove(rect(str(a)) == a, "the text of a rect gives the rect again")


case_rect_equal.over = range(4)

BAD_RECT = ["", "rect", "rect()", "rect(1px)", "rect(1px, 2px)", "rect(1px, 2px, 3px)", "rect(1px, 2px, 3px, 4px, 5px)", "rect(1px 2px 3px)", "rect(1px 2px 3px 4px 5px)", "rect(1px, 2px 3px, 4px)",
            "rect(1px, 2px, 3px 4px)", "rect(1px, 2px, 3px, x)", "rect(1px,, 2px, 3px)", "1px, 2px, 3px, 4px", "rect(1px, 2px, 3px, 4px", "rect 1px, 2px, 3px, 4px)", "rect((1px, 2px, 3px, 4px))",
            "rect(rect(1px, 2px, 3px, 4px)", "RECT(1px, 2px, 3px, 4px)", "xrect(1px, 2px, 3px, 4px)", "rect(1px, 2px, 3px, 4px)x", "inset(1px, 2px, 3px, 4px)", None, 3, 1.5, (1, 2, 3, 4), [1, 2, 3, 4], {}, object(),
            "rect(1deg, 2px, 3px, 4px)", "rect(auto, 2px, 3px, 4px)"]


def case_rect_bad(value):
    refuses((rect, is_rect), value, "what isn't a rect of four lengths is refused")


case_rect_bad.over = BAD_RECT


def case_rect_word(at):
    """a part that isn't a length"""
    w = vp.word("w", "abcdefghijklmnopqrstuvwxyz-", 1)
    n = [vp.numlit(x) + "px" for x in four()]
    n[at] = w
    refuses((rect, is_rect), "rect(" + ", ".join(n) + ")", "what isn't a rect of four lengths is refused")


case_rect_word.over = range(4)


def case_rect_form(k):
    """the parts of a rect in any other arrangement"""
    tokens, joint = k
    n = iter([vp.numlit(x) for x in four() + four()])
    text = joint.join(next(n) + "px" if t == "n" else t for t in tokens)
    refuses((rect, is_rect), text, "what isn't a rect of four lengths is refused")


RECT = [["rect(", "n", ",", "n", ",", "n", ",", "n", ")"], ["rect(", "n", "n", "n", "n", ")"]]
case_rect_form.over = [(t, " ") for f in RECT for t in neighbours(f) if t not in RECT] + [
    (t, "") for t in neighbours(RECT[0]) if t not in RECT]


# ---------------------------------------------------------------- border spacing
def case_spacing(form):
    a, b = vp.integer("a", -500, 500), vp.real("b", -500, 500)
    one = {"int": a, "text": str(a), "unit": str(a) + "px", "blanks": "  " + str(a) + "px ", "tuple": (a,), "list": [str(a) + "px"], "quantity": (a * u.px,)}
    two = {"text2": str(a) + " " + vp.numlit(b) + "em", "blanks2": " " + str(a) + "px   " + vp.numlit(b) + "em ", "tuple2": (a, vp.numlit(b) + "em"), "list2": [a * u.px, b * u.em]}
    value = one[form] if form in one else two[form]
    got = border_spacing(value)
    vp.prove(isinstance(got, BorderSpacing), "a border spacing has one or two lengths")
    vp.prove(got.horizontal == a * u.px, "the first length is the horizontal spacing")
    if form in one:
        vp.prove(got.vertical == a * u.px, "a single length is the vertical spacing as well")
    else:
        vp.prove(got.vertical == b * u.em, "the second length is the vertical spacing")
    again = border_spacing(str(got))
    vp.prove(again.horizontal == got.horizontal and again.vertical == got.vertical, "the text of a border spacing gives it again")
    vp.prove(border_spacing(got) is got and is_border_spacing(got) is got, "a border spacing that is already parsed is taken as it is")
    s = CSS(border_spacing=value)
    vp.prove(s.border_spacing.horizontal == got.horizontal and s.border_spacing.vertical == got.vertical, "a style has the border spacing")


case_spacing.over = ("int", "text", "unit", "blanks", "tuple", "list", "quantity", "text2", "blanks2", "tuple2", "list2")


def case_spacing_bad(value):
    refuses((border_spacing, is_border_spacing), value, "what isn't one or two lengths is refused")


case_spacing_bad.over = ["", " ", "1px 2px 3px", "x", "1px x", "x 1px", "1px, 2px", (), [], (1, 2, 3), ["1px", "x"], [None], None, {}, object(), {"a": 1}, 1j, (object(),), [[1]], "1deg"]


# ---------------------------------------------------------------- quotes
PAIRS = [[("<", ">")], [("<", ">"), ("{", "}")], [("«", "»"), ("‹", "›"), ("“", "”")], [("'", "'")], [('"', '"')], [("\\", "\\")], [("<<", ">>")]]


def case_quotes(k):
    pairs, form = k
    if form == "text":
        value = " ".join(repr(a) + " " + repr(b) for a, b in pairs)
    elif form == "wide":
        value = "  " + "   ".join(repr(a) + "  " + repr(b) for a, b in pairs) + " "
    elif form == "list":
        value = [[a, b] for a, b in pairs]
    elif form == "tuple":
        value = tuple(pairs)
    else:
        value = list(pairs)
    q = quotes(value)
    vp.prove(isinstance(q, Quotes) and len(q) == len(pairs), "quotes have a level for each pair")
    for i, (a, b) in enumerate(pairs):
        vp.prove(q.opening(i) == a and q.closing(i) == b, "quotes have the opening and the closing quote of each level")
    for f in (q.opening, q.closing):
        try:
            f(len(pairs))
            vp.prove(False, "there are no other levels")
        except IndexError:
            vp.prove(True, "there are no other levels")
    vp.prove(quotes(q) is q and is_quote(q) is q, "quotes that are already parsed are taken as they are")
    vp.prove(quotes(str(q)) == q, "the text of quotes gives them again")
    s = CSS(quotes=value)
    vp.prove(s.quotes == q, "a style has the quotes")


case_quotes.over = [(p, f) for p in PAIRS for f in ("text", "wide", "list", "tuple", "pairs")]


def case_quotes_equal(k):
    a, b = k
    vp.prove((Quotes(a) == Quotes(b)) is (a is b), "quotes are equal if all their levels are")
    vp.prove(Quotes(a) != a and Quotes(a) != None and Quotes(a) != "x", "quotes are equal if all their levels are")  # noqa: E711


case_quotes_equal.over = [(a, b) for a in PAIRS for b in PAIRS]


def case_quotes_bad(value):
    refuses((quotes, is_quote), value, "what isn't pairs of quotes is refused")


case_quotes_bad.over = ["", " ", "'<'", "'<' '>' '{'", "< >", "'<' ''", "'' '>'", "'<' >", "1 2", "'<' 1", "[] []", "None None", "'<' '>", "\"<' '>'", [], (), [("<",)], [("<", ">", "{")], [("", ">")], [(1, 2)], [("<", None)],
                        [1], 5, None, object(), {}, {"a": 1}, "() ()", "'a'+'b' 'c'", "-'a' 'b'",
                        "[1] [2]", "(1,) (2,)", "'<' [1]", "[1] '>'", "{1:2} '>'", "'<' ('>',)", "{1} {2}", "b'<' b'>'", "'<' b'>'", "b'<' '>'",
                        [([1], [2])], [("<", [">"])], [(["<"], ">")], [(("<",), (">",))], [("<", ">"), ("{", ["}"])], [("<", {1: 2})], [(None, ">")], [("<", 2)]]


# ---------------------------------------------------------------- urls
def case_uri(k):
    quote, blank, around = k
    w = vp.word("w", "path", 1)
    got = uri(around + "url(" + blank + quote + w + quote + blank + ")" + around)
    vp.prove(isinstance(got, Uri) and got.url == w, "a url is what is between the parentheses, without quotes and blanks")
    vp.prove(uri(got) is got and is_uri(got) is got, "a url that is already parsed is taken as it is")
    vp.prove(uri(str(got)).url == w, "the text of a url gives it again")


case_uri.over = [(q, b, a) for q in ("", "'", '"') for b in ("", " ", "   ") for a in ("", " ")]


def case_uri_quotes(k):
    """only a pair of quotes around the url isn't part of it"""
    before, inner, after = k
    w = vp.word("w", "path", 1) + inner + vp.word("v", "path", 1)
    try:
        got = uri("url(" + before + w + after + ")")
    except ValueError:
        vp.prove(before != after, "a url is what is between the parentheses, without quotes and blanks")
        return
    want = w if before == after else before + w + after
    vp.prove(isinstance(got, Uri) and got.url == want, "a url is what is between the parentheses, without quotes and blanks")


case_uri_quotes.over = [(b, i, a) for b in ("", "'", '"') for i in ("", "'", '"', " ") for a in ("", "'", '"') if i != b or not i]


def case_uri_bad(value):
    refuses((uri, is_uri), value, "what isn't a url is refused")


case_uri_bad.over = ["", "url", "url(", "url(x", "x)", "uri(x)", "URL(x)", "x", "(x)", None, 5, 1.5, [], ("url(x)",), {}, object(), "url (x)", b"url(x)"]


# ---------------------------------------------------------------- cursors
def case_cursor(k):
    """urls, then at most one keyword"""
    n, option, form = k
    parts, w = [], []
    for i in range(n):
        w.append(vp.word("w%d" % i, "path", 1))
        parts.append("url(" + w[i] + ")")
    if option:
        parts.append(option)
    value = {"text": ",".join(parts), "blanks": " " + " ,  ".join(parts) + " ", "list": list(parts), "tuple": tuple(parts)}[form]
    c = cursor(value)
    vp.prove(isinstance(c, Cursor) and len(c) == len(parts), "a cursor has the urls and the keyword, in their order")
    for i in range(n):
        vp.prove(isinstance(c[i], Uri) and c[i].url == w[i], "a cursor has the urls and the keyword, in their order")
    if option:
        vp.prove(c[n] == option, "a cursor has the urls and the keyword, in their order")
    d = cursor(c)
    vp.prove(isinstance(d, Cursor) and len(d) == len(c), "a cursor that is already parsed is taken as it is")
    s = CSS(cursor=value)
    vp.prove(len(s.cursor) == len(parts), "a style has the cursor")


case_cursor.over = [(0, o, f) for o in CURSORS for f in ("text", "list")] + [(n, o, f) for n in (1, 2, 3) for o in (None, "auto", "help") for f in ("text", "blanks", "list", "tuple")]


def case_cursor_bad(value):
    refuses((cursor, is_cursor), value, "anything else isn't a cursor")


case_cursor_bad.over = ["", "x", "auto auto", "auto, help", "auto, auto", "help, url(x)", "url(x), help, url(y)", "url(x) help", "url(x),", ",auto", "url(x), x", "AUTO", "none", "hand", 5, None, object(), ["auto", "help"],
                        ["help", "url(x)"], [None], [5], ("x",), [("auto",)], {}, 1.5, "url(x), url(y), auto, wait"]


def case_cursor_word(n):
    w = "x" + vp.word("w", "lower", 0) + "q"
    parts = ["url(a)"] * n + [w]
    refuses((cursor, is_cursor), ", ".join(parts), "anything else isn't a cursor")
    refuses((cursor, is_cursor), parts, "anything else isn't a cursor")


case_cursor_word.over = range(3)
