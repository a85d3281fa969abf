"""String abstract domain: templates, i.e. concatenations of known text and tokens.

A token stands for every string over a character set, with bounds on its length.  A
token may denote the literal of a number (its meaning is then an atom of the numeric
domain).  Operations return an exact result, or None if the template does not determine
it (the caller then partitions on an opaque predicate, or gives up)."""
import string

WS = " \t\n\r\x0b\x0c"
DIGITS = frozenset(string.digits)
LETTERS = frozenset(string.ascii_letters)
NUMCH = frozenset(string.digits + ".-+eE_infatyINFATY")
DECCH = frozenset(string.digits + ".-")      # str() of a finite number of moderate size
HEX = frozenset(string.hexdigits)


class Tok:
    __slots__ = ("name", "chars", "lo", "hi", "kind", "atom", "_h")

    def __init__(self, name, chars=None, lo=0, hi=None, kind="any", atom=None):
        self.name, self.chars, self.lo, self.hi, self.kind, self.atom = name, chars, lo, hi, kind, atom
        self._h = hash((name, kind, lo, hi))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Tok) and (o.name, o.kind, o.lo, o.hi) == (self.name, self.kind, self.lo, self.hi))

    def __repr__(self):
        return "<%s>" % (self.name,)

    def may(self, ch):
        return self.chars is None or ch in self.chars


class Str:
    __slots__ = ("parts", "_h")

    def __init__(self, parts):
        self.parts = parts
        self._h = hash(parts)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Str) and o.parts == self.parts)

    def __repr__(self):
        return "str[" + "".join(p if isinstance(p, str) else repr(p) for p in self.parts) + "]"


def mk(parts):
    """Normalise; returns a native str when everything is known"""
    out = []
    for p in parts:
        if isinstance(p, Str):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(tuple(out))


def parts(s):
    return s.parts if isinstance(s, Str) else ((s,) if s else ())


def fixed_len(s):
    n = 0
    for p in parts(s):
        if isinstance(p, str):
            n += len(p)
        elif p.hi is not None and p.lo == p.hi:
            n += p.lo
        else:
            return None
    return n


def min_len(s):
    return sum(len(p) if isinstance(p, str) else p.lo for p in parts(s))


def may_equal(s, const):
    """Can the template denote this constant? (backtracking match)"""
    ps = parts(s)

    def go(i, j):
        if i == len(ps):
            return j == len(const)
        p = ps[i]
        if isinstance(p, str):
            return const.startswith(p, j) and go(i + 1, j + len(p))
        hi = p.hi if p.hi is not None else len(const) - j
        k = 0
        while True:
            if k >= p.lo and tok_ok(p, const[j:j + k]) and go(i + 1, j + k):
                return True
            if k >= hi or j + k >= len(const) or not p.may(const[j + k]):
                return False
            k += 1

    return go(0, 0)


def tok_ok(t, text):
    if t.kind == "int":
        try:
            int(text)
            return True
        except ValueError:
            return False
    if t.kind == "float":
        return "." in text
    return True


def startswith(s, pre):
    ps = parts(s)
    if not pre:
        return True
    if not ps:
        return False
    p = ps[0]
    if isinstance(p, str):
        if len(p) >= len(pre):
            return p.startswith(pre)
        if not pre.startswith(p):
            return False
        return startswith(mk(ps[1:]), pre[len(p):])
    if p.lo >= 1 and not p.may(pre[0]):
        return False
    if p.kind == "any" and p.chars is None:
        return None
    # no prefix of pre can be matched by the token and then continued by the rest?
    for k in range(p.lo, len(pre) + 1):
        if all(p.may(c) for c in pre[:k]) and (p.hi is None or k <= p.hi):
            if k == len(pre):
                return None
            r = startswith(mk(ps[1:]), pre[k:])
            if r is not False:
                return None
    return False


def endswith(s, suf):
    ps = parts(s)
    if not suf:
        return True
    if not ps:
        return False
    p = ps[-1]
    if isinstance(p, str):
        if len(p) >= len(suf):
            return p.endswith(suf)
        if not suf.endswith(p):
            return False
        return endswith(mk(ps[:-1]), suf[:-len(p)])
    if p.lo >= 1 and not p.may(suf[-1]):
        return False
    if p.kind == "any" and p.chars is None:
        return None
    for k in range(p.lo, len(suf) + 1):
        if all(p.may(c) for c in suf[len(suf) - k:]) and (p.hi is None or k <= p.hi):
            if k == len(suf):
                return None
            r = endswith(mk(ps[:-1]), suf[:len(suf) - k])
            if r is not False:
                return None
    return False


def disjoint(s, chars):
    for p in parts(s):
        if not isinstance(p, str):
            if p.chars is None or any(c in p.chars for c in chars):
                return False
    return True


def within(s, sub):
    """do all occurrences of a text lie within the known text?"""
    ps = parts(s)
    n = len(sub)
    for k, t in enumerate(ps):
        if isinstance(t, str):
            continue
        left = ps[k - 1] if k else ""
        right = ps[k + 1] if k + 1 < len(ps) else ""
        for i in range(n):
            if i:
                if not isinstance(left, str):
                    pass
                elif not (left.endswith(sub[:i]) or (k > 1 and sub[:i].endswith(left))):
                    continue
            for j in range(i, n + 1):
                if j == i:
                    if t.lo > 0 or i == 0:
                        continue
                elif (t.hi is not None and t.hi < j - i) or not all(t.may(c) for c in sub[i:j]):
                    continue
                rest = sub[j:]
                if not rest or not isinstance(right, str) or right.startswith(rest) or (k + 2 < len(ps) and rest.startswith(right)):
                    return False
    return True


def split(s, sep=None, maxsplit=-1):
    ps = parts(s)
    if maxsplit != -1:
        if sep is None:
            return None
    if sep is None:
        if not disjoint(s, WS):
            return None
        out = []
        cur = []
        for p in ps:
            if not isinstance(p, str):
                if p.lo < 1:
                    return None
                cur.append(p)
                continue
            buf = ""
            for ch in p:
                if ch in WS:
                    if buf:
                        cur.append(buf)
                        buf = ""
                    if cur:
                        out.append(mk(cur))
                        cur = []
                else:
                    buf += ch
            if buf:
                cur.append(buf)
        if cur:
            out.append(mk(cur))
        return out
    if not within(s, sep):
        return None
    out = []
    cur = []
    for p in ps:
        if not isinstance(p, str):
            cur.append(p)
            continue
        if maxsplit != -1:
            pieces = p.split(sep, maxsplit - len(out)) if maxsplit > len(out) else [p]
        else:
            pieces = p.split(sep)
        cur.append(pieces[0])
        for q in pieces[1:]:
            out.append(mk(cur))
            cur = [q]
    out.append(mk(cur))
    return out


def avoids(t, chars):
    return t.chars is not None and not any(c in t.chars for c in chars)


def firm(ps, chars, right=False):
    """does nothing of these parts go when stripped at the left (right)?"""
    for p in (reversed(ps) if right else ps):
        if isinstance(p, str):
            return p[-1 if right else 0] not in chars
        if not avoids(p, chars):
            return False
        if p.lo >= 1:
            return True
    return True


def strip(s, chars=None, left=True, right=True):
    """(the stripped string or None, the token that prevents it, the parts)"""
    chars = WS if chars is None else chars
    ps = list(parts(s))
    while left and ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip(chars)
        if ps[0]:
            break
        ps.pop(0)
    while right and ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip(chars)
        if ps[-1]:
            break
        ps.pop()
    for on, r in ((left, False), (right, True)):
        if on and not firm(ps, chars, r):
            for t in (reversed(ps) if r else ps):
                if not isinstance(t, str) and (t.lo < 1 or not avoids(t, chars)):
                    return None, t, ps
            return None, None, ps
    return mk(ps), None, ps


def replace(s, old, new, count=-1):
    if not old or not within(s, old) or count != -1:
        return None
    # occurrences cannot straddle a token, as the token cannot contain any char of old
    return mk([p.replace(old, new) if isinstance(p, str) else p for p in parts(s)])


def count(s, sub):
    if not sub or not within(s, sub):
        return None
    return sum(p.count(sub) for p in parts(s) if isinstance(p, str))


def contains(s, sub):
    if not sub:
        return True
    if any(isinstance(p, str) and sub in p for p in parts(s)):
        return True
    if within(s, sub):
        return False
    # a char of sub that occurs nowhere
    for ch in sub:
        if all((ch not in p) if isinstance(p, str) else not p.may(ch) for p in parts(s)):
            return False
    return None


def find(s, sub, right=False):
    """index as int (only if before any token for find), -1 if absent, None unknown"""
    c = contains(s, sub)
    if c is False:
        return -1
    if c is None or not within(s, sub):
        return None
    n = 0
    best = None
    for p in parts(s):
        if isinstance(p, str):
            i = p.rfind(sub) if right else p.find(sub)
            if i >= 0:
                if n is None:
                    return None
                best = n + i
                if not right:
                    return best
            n = None if n is None else n + len(p)
        else:
            n = n + p.lo if (n is not None and p.hi == p.lo) else None
    return best


def expand(s):
    """List of single characters / fixed-size tokens / variable tokens"""
    out = []
    for p in parts(s):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


class Cut:
    """a position: so many characters after the i-th element of an expanded template"""

    def __init__(self, i, off):
        self.i, self.off = i, off


def slice_(s, lo, hi):
    """s[lo:hi] for int, Cut or None bounds"""
    es = expand(s)
    n = len(es)

    def width(e):
        if isinstance(e, str):
            return 1
        return e.lo if e.hi == e.lo else None

    total = fixed_len(s)

    def pos(k, default):
        """index in es of the cut; or None"""
        if k is None:
            return default
        if isinstance(k, Cut):
            i, w = k.i, k.off
            while w > 0 and i < n:
                x = width(es[i])
                if x is None or x > w:
                    return None
                w -= x
                i += 1
            while w < 0:
                if i == 0:
                    return None       # a negative bound counts from the end
                x = width(es[i - 1])
                if x is None or x > -w:
                    return None
                w += x
                i -= 1
            return i
        if k < 0:
            if total is not None:
                k = max(0, total + k)
            else:
                w = 0
                i = n
                while w < -k:
                    if i == 0:
                        return 0 if True else None
                    x = width(es[i - 1])
                    if x is None:
                        return None
                    w += x
                    i -= 1
                return i if w == -k else None
        w = 0
        i = 0
        while w < k:
            if i == n:
                return n
            x = width(es[i])
            if x is None:
                return None
            w += x
            i += 1
        return i if w == k else None

    a = pos(lo, 0)
    b = pos(hi, n)
    if a is None or b is None:
        return None
    # a variable token of minimum length 0 may make bounds clip
    return mk(es[a:b]) if a < b else ""


def lower(s):
    if all(isinstance(p, str) or (p.chars is not None and not any(c.isupper() for c in p.chars)) for p in parts(s)):
        return mk([p.lower() if isinstance(p, str) else p for p in parts(s)])
    return None


def upper(s):
    if all(isinstance(p, str) or (p.chars is not None and not any(c.islower() for c in p.chars)) for p in parts(s)):
        return mk([p.upper() if isinstance(p, str) else p for p in parts(s)])
    return None
