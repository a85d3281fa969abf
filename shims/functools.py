from _native import wraps, partial, cached_property  # noqa


def update_wrapper(wrapper, wrapped, *args):
    return wraps(wrapped)(wrapper)


def reduce(function, iterable, *initial):
    it = list(iterable)
    if initial:
        acc = initial[0]
    else:
        if not it:
            raise TypeError("reduce() of empty iterable with no initial value")
        acc = it.pop(0)
    for x in it:
        acc = function(acc, x)
    return acc


class _cached:
    def __init__(self, fn, typed):
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, "__name__", "")
        self.typed = typed
        self.memo = {}

    def __call__(self, *args, **kwargs):
        key = (args, tuple(sorted(kwargs.items())))
        if self.typed:
            key = key + (tuple([type(a) for a in args]),)
        if key in self.memo:
            return self.memo[key]
        result = self.__wrapped__(*args, **kwargs)
        self.memo[key] = result
        return result

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return partial(self, obj)

    def cache_clear(self):
        self.memo.clear()


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize, False)

    def deco(fn):
        return _cached(fn, typed)
    return deco


def cache(fn):
    return _cached(fn, False)


def total_ordering(cls):
    ns = cls.__dict__
    if "__lt__" not in ns and "__gt__" in ns:
        def __lt__(self, other):
            r = self.__gt__(other)
            return r if r is NotImplemented else (not r and self != other)
        cls.__lt__ = __lt__
        ns = cls.__dict__
    if "__lt__" not in ns and "__le__" in ns:
        def __lt__(self, other):
            r = self.__le__(other)
            return r if r is NotImplemented else (r and self != other)
        cls.__lt__ = __lt__
        ns = cls.__dict__
    if "__lt__" in ns:
        def __gt__(self, other):
            r = self.__lt__(other)
            return r if r is NotImplemented else (not r and self != other)

        def __le__(self, other):
            r = self.__lt__(other)
            return r if r is NotImplemented else (r or self == other)

        def __ge__(self, other):
            r = self.__lt__(other)
            return r if r is NotImplemented else not r
        for name, f in (("__gt__", __gt__), ("__le__", __le__), ("__ge__", __ge__)):
            if name not in ns:
                setattr(cls, name, f)
    else:
        raise ValueError("must define at least one ordering operation: < > <= >=")
    return cls


class partialmethod:
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.kw = kw

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return partial(self.func, obj, *self.args, **self.kw)


class singledispatch:
    def __init__(self, fn):
        self.default = fn
        self.table = []
        self.__name__ = fn.__name__

    def register(self, cls, fn=None):
        if fn is None and not isinstance(cls, type):
            f = cls
            cls = list(f.__annotations__.values())[0]
            self.table.append((cls, f))
            return f
        if fn is None:
            def deco(f):
                self.table.append((cls, f))
                return f
            return deco
        self.table.append((cls, fn))
        return fn

    def dispatch(self, cls):
        for c in cls.__mro__:
            for k, f in reversed(self.table):
                if k is c:
                    return f
        return self.default

    def __call__(self, arg, *args, **kw):
        return self.dispatch(type(arg))(arg, *args, **kw)


class singledispatchmethod:
    def __init__(self, fn):
        self.dispatcher = singledispatch(fn)

    def register(self, cls, fn=None):
        return self.dispatcher.register(cls, fn)

    def __get__(self, obj, cls=None):
        def method(*args, **kw):
            return self.dispatcher.dispatch(type(args[0]))(obj, *args, **kw)
        return method
