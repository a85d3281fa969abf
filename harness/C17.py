"""List values can't be changed, and are values"""
import vp
from colosseum.wrappers import Cursor, ImmutableList
from spec.common import CSS

CLASSES = {"list": ImmutableList, "cursor": Cursor}


def items(n):
    return [vp.integer("i%d" % i, -100, 100) for i in range(n)]


MUTATORS = {
    "append": lambda l, x: l.append(x),
    "extend": lambda l, x: l.extend([x]),
    "extend-empty": lambda l, x: l.extend([]),
    "insert": lambda l, x: l.insert(0, x),
    "remove": lambda l, x: l.remove(l[0]),
    "pop": lambda l, x: l.pop(),
    "pop-index": lambda l, x: l.pop(0),
    "clear": lambda l, x: l.clear(),
    "sort": lambda l, x: l.sort(),
    "sort-key": lambda l, x: l.sort(key=lambda v: -v),
    "sort-reverse": lambda l, x: l.sort(reverse=True),
    "reverse": lambda l, x: l.reverse(),
    "setitem": lambda l, x: l.__setitem__(0, x),
    "delitem": lambda l, x: l.__delitem__(0),
    "setslice": lambda l, x: l.__setitem__(slice(0, 1), [x]),
    "delslice": lambda l, x: l.__delitem__(slice(0, 1)),
    "iadd": lambda l, x: l.__iadd__([x]),
    "imul": lambda l, x: l.__imul__(x),
    "extend-self": lambda l, x: l.extend(l),
    "init": lambda l, x: l.__iadd__(()),
    "insert-end": lambda l, x: l.insert(100, x),
    "pop-last": lambda l, x: l.pop(-1),
    "setitem-any": lambda l, x: l.__setitem__(x, x),
    "delitem-any": lambda l, x: l.__delitem__(x),
    "setitem-same": lambda l, x: l.__setitem__(0, l[0]),
    "remove-any": lambda l, x: l.remove(x),
    "insert-any": lambda l, x: l.insert(x, x),
}


def set_item(l, x):
    l[0] = x


def del_item(l, x):
    del l[0]


def set_slice(l, x):
    l[0:1] = [x]


def del_slice(l, x):
    del l[:]


def iadd(l, x):
    l += [x]


def imul(l, x):
    l *= x


MUTATORS.update({"l[0] =": set_item, "del l[0]": del_item, "l[0:1] =": set_slice, "del l[:]": del_slice, "+=": iadd, "*=": imul})


def case_mutate(k):
    cls, name, n = k
    values = items(n)
    l = CLASSES[cls](values)
    h = hash(l)
    try:
        MUTATORS[name](l, vp.integer("x", -100, 100))
        vp.prove(False, "changing a list value is refused (" + name + ")")
    except TypeError:
        vp.prove(True, "changing a list value is refused (" + name + ")")
    vp.prove(len(l) == n and list(l) == values, "a list value never changes (" + name + ")")
    vp.prove(hash(l) == h, "a list value never changes (" + name + ")")


case_mutate.over = [(c, m, n) for c in sorted(CLASSES) for m in sorted(MUTATORS) for n in (1, 2, 3)]


def case_value(k):
    """reading"""
    cls, n = k
    values = items(n)
    l = CLASSES[cls](values)
    vp.prove(len(l) == n and isinstance(l, list), "a list value has the items it was made of")
    for i in range(n):
        vp.prove(l[i] == values[i] and l[i - n] == values[i], "a list value has the items it was made of")
    i = 0
    for x in l:
        vp.prove(x == values[i], "a list value has the items it was made of")
        i = i + 1
    for bad in (n, -n - 1):
        try:
            l[bad]
            vp.prove(False, "there are no other items")
        except IndexError:
            vp.prove(True, "there are no other items")
    values.append(5)
    vp.prove(len(l) == n, "a list value doesn't share what it was made of")


case_value.over = [(c, n) for c in sorted(CLASSES) for n in (0, 1, 2, 3)]


def case_copy(k):
    cls, n = k
    values = items(n)
    l = CLASSES[cls](values)
    c = l.copy()
    vp.prove(type(c) is type(l) and list(c) == list(l), "a copy is an equal value of the same kind")
    vp.prove(c == l and hash(c) == hash(l), "a copy is an equal value of the same kind")
    try:
        c.append(1)
        vp.prove(False, "a copy can't be changed either")
    except TypeError:
        vp.prove(list(l) == values, "a copy can't be changed either")


case_copy.over = [(c, n) for c in sorted(CLASSES) for n in (0, 1, 2)]


def case_hash(k):
    """equal values of a kind have the same hash"""
    n, m = k
    a, b = [vp.integer("a%d" % i, -100, 100) for i in range(n)], [vp.integer("b%d" % i, -100, 100) for i in range(m)]
    x, y = ImmutableList(a), ImmutableList(b)
    if x == y:
        vp.prove(hash(x) == hash(y), "equal list values have the same hash")
        vp.prove(n == m and a == b, "list values are equal if their items are")
    else:
        vp.prove(n != m or a != b, "list values are equal if their items are")


case_hash.over = [(n, m) for n in (0, 1, 2) for m in (0, 1, 2)]


def case_text(k):
    l = k(["url(a)", "help"])
    vp.prove(str(l) == "url(a), help", "the text of a list value has its items")
    vp.prove(repr(l) == k.__name__ + "(['url(a)', 'help'])", "the representation of a list value has its items")
    vp.prove(repr(k()) == k.__name__ + "()" and str(k()) == "", "the representation of a list value has its items")


case_text.over = [ImmutableList, Cursor]


def case_style(how):
    """the value of a style can't be changed behind its back"""
    given = ["url(a.png)", "help"]
    s = CSS()
    s.cursor = given if how == "list" else tuple(given) if how == "tuple" else ", ".join(given)
    got = s.cursor
    given.append("x")
    vp.prove(len(s.cursor) == 2, "the cursor of a style doesn't share what it was set to")
    for m in ("append", "extend-empty", "clear", "pop", "reverse", "+=", "del l[:]", "l[0] ="):
        try:
            MUTATORS[m](got, "wait")
            vp.prove(False, "changing a list value is refused (" + m + ")")
        except TypeError:
            vp.prove(len(s.cursor) == 2 and s.cursor[1] == "help" and s.cursor[0].url == "a.png", "the cursor of a style only changes by assignment")


case_style.over = ("list", "tuple", "text")
