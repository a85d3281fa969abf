def namedtuple(typename, field_names, rename=False, defaults=None, module=None):
    if isinstance(field_names, str):
        field_names = field_names.replace(",", " ").split()
    fields = tuple(field_names)
    dflt = tuple(defaults) if defaults else ()

    def __new__(cls, *args, **kw):
        values = list(args)
        if len(values) > len(fields):
            raise TypeError("too many arguments")
        for i in range(len(values), len(fields)):
            name = fields[i]
            if name in kw:
                values.append(kw.pop(name))
            else:
                j = i - (len(fields) - len(dflt))
                if j < 0:
                    raise TypeError("missing argument " + name)
                values.append(dflt[j])
        if kw:
            raise TypeError("unexpected keyword argument")
        return tuple.__new__(cls, values)

    def _replace(self, **kw):
        return type(self)(*[kw.get(n, v) for n, v in zip(fields, self)])

    def _asdict(self):
        return dict(zip(fields, self))

    def __repr__(self):
        return typename + "(" + ", ".join([n + "=" + repr(v) for n, v in zip(fields, self)]) + ")"

    def _make(cls, it):
        return cls(*it)

    ns = {"__new__": __new__, "_replace": _replace, "_asdict": _asdict, "__repr__": __repr__, "_fields": fields,
          "_make": classmethod(_make), "_field_defaults": {}}

    def getter(i):
        def get(self):
            return tuple.__getitem__(self, i)
        return property(get)
    for i in range(len(fields)):
        ns[fields[i]] = getter(i)
    return type(typename, (tuple,), ns)


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        for m in self.maps:
            if key in m:
                return m[key]
        return default

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            for k in m:
                d[k] = True
        return iter(list(d))

    def items(self):
        return [(k, self[k]) for k in self]

    def keys(self):
        return [k for k in self]

    def values(self):
        return [self[k] for k in self]

    def __len__(self):
        return len([k for k in self])


class NamedTupleMeta(type):
    def __new__(mcs, name, bases, ns):
        if not bases:
            return type.__new__(mcs, name, bases, ns)
        names = list(ns.get("__annotations__", {}))
        nt = namedtuple(name, names, defaults=[ns[n] for n in names if n in ns])
        for k, v in ns.items():
            if k not in names and k not in ("__new__", "__annotations__", "__module__", "__qualname__"):
                setattr(nt, k, v)
        nt._field_defaults = {n: ns[n] for n in names if n in ns}
        return nt


class NamedTuple(metaclass=NamedTupleMeta):
    pass
