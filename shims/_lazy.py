"""Lazy iterators, as generator functions (interpreted like the analysed code)."""


def map_(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield f(x)
    else:
        for xs in zip(*its):
            yield f(*xs)


def filter_(f, it):
    for x in it:
        if x if f is None else f(x):
            yield x


def enumerate_(it, start=0):
    i = start
    for x in it:
        yield i, x
        i += 1


def iter_(f, sentinel):
    while True:
        x = f()
        if x == sentinel:
            return
        yield x


def prod_(it, start=1):
    for x in it:
        start = start * x
    return start
