class auto:
    pass


class EnumMeta(type):
    def __new__(mcs, name, bases, ns, **kw):
        plain, members, last = {}, {}, 0
        for k, v in ns.items():
            if k.startswith("_") or callable(v) or isinstance(v, (property, classmethod, staticmethod)) or hasattr(v, "__get__"):
                plain[k] = v
            else:
                members[k] = v
        cls = super().__new__(mcs, name, bases, plain)
        cls._member_map_ = {}
        cls._by_value_ = []
        kind = [b for b in cls.__mro__ if b in (str, int, float)]
        for k, v in members.items():
            if isinstance(v, auto):
                if str in kind:
                    v = k.lower()
                elif getattr(cls, "_flags_", False):
                    v = 1 if not last else last * 2
                else:
                    v = last + 1
            if isinstance(v, int):
                last = v
            old = None
            for m in cls._by_value_:
                if m._value_ == v:
                    old = m
            if old is not None:
                cls._member_map_[k] = old
                setattr(cls, k, old)
                continue
            if "__new__" in plain:
                m = plain["__new__"](cls, *(v if isinstance(v, tuple) else (v,)))
            elif kind:
                m = kind[0].__new__(cls, v)
            else:
                m = object.__new__(cls)
            m._value_ = v
            m._name_ = k
            init = getattr(cls, "__init__", None)
            if "__init__" in plain:
                m.__init__(*(v if isinstance(v, tuple) else (v,)))
            cls._member_map_[k] = m
            cls._by_value_.append(m)
            setattr(cls, k, m)
        return cls

    def __iter__(cls):
        return iter(list(cls._by_value_))

    def __len__(cls):
        return len(cls._by_value_)

    def __getitem__(cls, name):
        return cls._member_map_[name]

    def __contains__(cls, x):
        for m in cls._by_value_:
            if m is x or m._value_ == x:
                return True
        return False

    def __bool__(cls):
        return True

    def __call__(cls, value):
        for m in cls._by_value_:
            if m is value or m._value_ == value:
                return m
        if hasattr(cls, "_missing_"):
            m = cls._missing_(value)
            if m is not None:
                return m
        raise ValueError(repr(value) + " is not a valid " + cls.__qualname__)

    @property
    def __members__(cls):
        return dict(cls._member_map_)


class Enum(metaclass=EnumMeta):
    @property
    def value(self):
        return self._value_

    @property
    def name(self):
        return self._name_

    def __repr__(self):
        return "<" + type(self).__name__ + "." + self._name_ + ": " + repr(self._value_) + ">"

    def __str__(self):
        return type(self).__name__ + "." + self._name_

    def __hash__(self):
        return hash(self._name_)


class StrEnum(str, Enum):
    def __str__(self):
        return self._value_


def unique(cls):
    return cls


def member(x):
    return x
