MISSING = object()


class _Field:
    def __init__(self, default=MISSING, default_factory=MISSING, init=True, repr=True, compare=True):
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.compare = compare
        self.name = None


def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, compare=True, hash=None, metadata=None, kw_only=False):
    return _Field(default, default_factory, init, repr, compare)


class FrozenInstanceError(AttributeError):
    pass


def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, frozen=False, unsafe_hash=False, slots=False, kw_only=False):
    def wrap(cls):
        return _process(cls, init, repr, eq, order, frozen)
    if cls is None:
        return wrap
    return wrap(cls)


def _process(cls, init, repr_, eq, order, frozen):
    fields = {}
    for b in reversed(cls.__mro__[1:]):
        for f in getattr(b, "__dataclass_fields__", {}).values():
            fields[f.name] = f
    for name in cls.__dict__.get("__annotations__", {}):
        d = cls.__dict__.get(name, MISSING)
        f = d if isinstance(d, _Field) else _Field(d)
        f.name = name
        if isinstance(d, _Field):
            if d.default is not MISSING:
                setattr(cls, name, d.default)
            else:
                delattr(cls, name)
        fields[name] = f
    cls.__dataclass_fields__ = fields
    flds = list(fields.values())

    def __init__(self, *args, **kw):
        todo = [f for f in flds if f.init]
        if len(args) > len(todo):
            raise TypeError("too many arguments")
        given = dict(zip([f.name for f in todo], args))
        for k, v in kw.items():
            if k in given or k not in fields:
                raise TypeError("unexpected argument " + k)
            given[k] = v
        for f in flds:
            if f.name in given:
                object.__setattr__(self, f.name, given[f.name])
            elif f.default is not MISSING:
                object.__setattr__(self, f.name, f.default)
            elif f.default_factory is not MISSING:
                object.__setattr__(self, f.name, f.default_factory())
            else:
                raise TypeError("missing argument " + f.name)
        if hasattr(self, "__post_init__"):
            self.__post_init__()

    def key(self):
        return tuple([getattr(self, f.name) for f in flds if f.compare])

    def __eq__(self, other):
        if type(other) is not type(self):
            return NotImplemented
        return key(self) == key(other)

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join([f.name + "=" + repr(getattr(self, f.name)) for f in flds if f.repr]) + ")"

    def __hash__(self):
        return hash(key(self))

    def __setattr__(self, name, value):
        raise FrozenInstanceError("cannot assign to field")

    def __delattr__(self, name):
        raise FrozenInstanceError("cannot delete field")

    ns = cls.__dict__
    if init and "__init__" not in ns:
        cls.__init__ = __init__
    if repr_ and "__repr__" not in ns:
        cls.__repr__ = __repr__
    if eq and "__eq__" not in ns:
        cls.__eq__ = __eq__
        if frozen:
            cls.__hash__ = __hash__
        elif "__hash__" not in ns:
            cls.__hash__ = None
    if order:
        def __lt__(self, other):
            return key(self) < key(other) if type(other) is type(self) else NotImplemented

        def __le__(self, other):
            return key(self) <= key(other) if type(other) is type(self) else NotImplemented

        def __gt__(self, other):
            return key(self) > key(other) if type(other) is type(self) else NotImplemented

        def __ge__(self, other):
            return key(self) >= key(other) if type(other) is type(self) else NotImplemented
        cls.__lt__, cls.__le__, cls.__gt__, cls.__ge__ = __lt__, __le__, __gt__, __ge__
    if frozen:
        cls.__setattr__ = __setattr__
        cls.__delattr__ = __delattr__
    return cls


def fields(x):
    return tuple(x.__dataclass_fields__.values())


def asdict(x):
    return {f.name: getattr(x, f.name) for f in fields(x)}


def astuple(x):
    return tuple([getattr(x, f.name) for f in fields(x)])


def replace(x, **kw):
    d = asdict(x)
    d.update(kw)
    return type(x)(**d)
