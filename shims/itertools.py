def chain(*its):
    for it in its:
        yield from it


def _from_iterable(its):
    for it in its:
        yield from it


chain.from_iterable = _from_iterable


class repeat:
    def __init__(self, x, *times):
        self.x = x
        if times:
            self.times = times[0]

    def __iter__(self):
        return self

    def __next__(self):
        if hasattr(self, "times"):
            if self.times <= 0:
                raise StopIteration
            self.times -= 1
        return self.x


class count:
    def __init__(self, start=0, step=1):
        self.n = start
        self.step = step

    def __iter__(self):
        return self

    def __next__(self):
        n = self.n
        self.n = n + self.step
        return n


class cycle:
    def __init__(self, it):
        self.items = list(it)
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if not self.items:
            raise StopIteration
        x = self.items[self.i]
        self.i = (self.i + 1) % len(self.items)
        return x


def product(*its, repeat=1):
    pools = [tuple(i) for i in its] * repeat
    result = [()]
    for pool in pools:
        result = [r + (x,) for r in result for x in pool]
    return iter(result)


def permutations(it, r=None):
    pool = tuple(it)
    n = len(pool)
    r = n if r is None else r
    out = []
    for idx in product(range(n), repeat=r):
        if len(set(idx)) == r:
            out.append(tuple([pool[i] for i in idx]))
    return iter(out)


def combinations(it, r):
    pool = tuple(it)
    n = len(pool)
    out = []
    for idx in product(range(n), repeat=r):
        if all(idx[i] < idx[i + 1] for i in range(r - 1)):
            out.append(tuple([pool[i] for i in idx]))
    return iter(out)


def zip_longest(*its, fillvalue=None):
    ls = [list(i) for i in its]
    n = max([len(x) for x in ls]) if ls else 0
    return iter([tuple([x[i] if i < len(x) else fillvalue for x in ls]) for i in range(n)])


def accumulate(it, func=None, initial=None):
    acc = initial
    first = initial is None
    if not first:
        yield acc
    for x in it:
        if first:
            acc = x
            first = False
        elif func is None:
            acc = acc + x
        else:
            acc = func(acc, x)
        yield acc


def takewhile(p, it):
    for x in it:
        if not p(x):
            break
        yield x


def dropwhile(p, it):
    dropping = True
    for x in it:
        if dropping and p(x):
            continue
        dropping = False
        yield x


def filterfalse(p, it):
    for x in it:
        if not (x if p is None else p(x)):
            yield x


def islice(it, *args):
    if isinstance(it, (count, cycle, repeat)):
        stop = args[0] if len(args) == 1 else args[1]
        xs = []
        for _ in range(stop):
            xs.append(next(it))
        it = xs
    s = slice(*args)
    return iter(list(it)[s])


def starmap(f, it):
    for x in it:
        yield f(*x)


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def pairwise(it):
    xs = list(it)
    return iter([(xs[i], xs[i + 1]) for i in range(len(xs) - 1)])


def groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(v)) for k, v in out])


def tee(it, n=2):
    xs = list(it)
    return tuple([iter(xs) for _ in range(n)])


def batched(it, n):
    xs = list(it)
    return iter([tuple(xs[i:i + n]) for i in range(0, len(xs), n)])
