def copy(x):
    cls = type(x)
    if hasattr(x, "__copy__"):
        return x.__copy__()
    if cls in (int, float, str, bool, tuple, frozenset, type(None)) or isinstance(x, type):
        return x
    if cls is list:
        return list(x)
    if cls is dict:
        return dict(x)
    if cls is set:
        return set(x)
    new = cls.__new__(cls)
    if isinstance(x, list):
        list.extend(new, x)
    elif isinstance(x, dict):
        dict.update(new, x)
    for k, v in vars(x).items():
        new.__dict__[k] = v
    return new


def deepcopy(x, memo=None):
    if memo is None:
        memo = {}
    cls = type(x)
    if cls in (int, float, str, bool, frozenset, type(None)) or isinstance(x, type) or callable(x):
        return x
    if id(x) in memo:
        return memo[id(x)]
    if hasattr(x, "__deepcopy__"):
        return x.__deepcopy__(memo)
    if cls is tuple:
        return tuple([deepcopy(y, memo) for y in x])
    if cls is list:
        new = []
        memo[id(x)] = new
        for y in x:
            new.append(deepcopy(y, memo))
        return new
    if cls is dict:
        new = {}
        memo[id(x)] = new
        for k, v in x.items():
            new[deepcopy(k, memo)] = deepcopy(v, memo)
        return new
    if cls is set:
        return set([deepcopy(y, memo) for y in x])
    new = cls.__new__(cls)
    memo[id(x)] = new
    if isinstance(x, list):
        list.extend(new, [deepcopy(y, memo) for y in x])
    elif isinstance(x, dict):
        dict.update(new, {deepcopy(k, memo): deepcopy(v, memo) for k, v in x.items()})
    for k, v in vars(x).items():
        new.__dict__[k] = deepcopy(v, memo)
    return new
