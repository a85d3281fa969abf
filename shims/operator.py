def attrgetter(*names):
    def get(obj, name):
        for n in name.split("."):
            obj = getattr(obj, n)
        return obj

    def f(obj):
        if len(names) == 1:
            return get(obj, names[0])
        return tuple([get(obj, n) for n in names])
    return f


def itemgetter(*keys):
    def f(obj):
        if len(keys) == 1:
            return obj[keys[0]]
        return tuple([obj[k] for k in keys])
    return f


def methodcaller(name, *args, **kw):
    def f(obj):
        return getattr(obj, name)(*args, **kw)
    return f


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def truediv(a, b):
    return a / b


def floordiv(a, b):
    return a // b


def mod(a, b):
    return a % b


def neg(a):
    return -a


def pos(a):
    return +a


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def not_(a):
    return not a


def truth(a):
    return bool(a)


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def contains(a, b):
    return b in a


def getitem(a, b):
    return a[b]


def setitem(a, b, c):
    a[b] = c


def delitem(a, b):
    del a[b]


def and_(a, b):
    return a & b


def or_(a, b):
    return a | b


def xor(a, b):
    return a ^ b


def concat(a, b):
    return a + b


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def imul(a, b):
    a *= b
    return a


def index(a):
    return a.__index__()
