"""Interned sets of code points, stored as sorted disjoint closed ranges.

Every unary constraint on a symbolic character ("this character is in class
S") is one of these; the operations are exact.
"""
import bisect
import sys

MAXCP = 0x10FFFF


class CS(object):
    __slots__ = ('r', 'id', 'n', 'los', '_and', '_sub', '_z3')
    _intern = {}

    def __contains__(self, cp):
        i = bisect.bisect_right(self.los, cp) - 1
        return i >= 0 and cp <= self.r[i][1]

    def __bool__(self):
        return self.n > 0

    def __len__(self):
        return self.n

    def __and__(self, o):
        try:
            return self._and[o.id]
        except KeyError:
            v = self._and[o.id] = mk(_inter(self.r, o.r))
            return v

    def __sub__(self, o):
        try:
            return self._sub[o.id]
        except KeyError:
            v = self._sub[o.id] = mk(_inter(self.r, _compl(o.r)))
            return v

    def __or__(self, o):
        return mk(_norm(list(self.r) + list(o.r)))

    def __repr__(self):
        return 'CS[%s]' % ','.join(
            '%x' % a if a == b else '%x-%x' % (a, b) for a, b in self.r[:12])

    def __iter__(self):
        for a, b in self.r:
            for c in range(a, b + 1):
                yield c

    def pick(self):
        """A readable representative."""
        for lo, hi in ((97, 122), (65, 90), (48, 57), (33, 126), (32, 32),
                       (10, 10), (9, 9)):
            for a, b in self.r:
                x = max(a, lo)
                if x <= min(b, hi):
                    return x
        return self.r[0][0]

    def formula(self, x, z3):
        """z3 formula: x (an Int term) is in this set."""
        if not self.r:
            return z3.BoolVal(False)
        t = []
        for a, b in self.r:
            if a == b:
                t.append(x == a)
            else:
                t.append(z3.And(x >= a, x <= b))
        return t[0] if len(t) == 1 else z3.Or(t)


def mk(ranges):
    t = tuple(ranges)
    v = CS._intern.get(t)
    if v is None:
        v = CS()
        v.r = t
        v.los = [a for a, _ in t]
        v.n = sum(b - a + 1 for a, b in t)
        v.id = len(CS._intern)
        v._and = {}
        v._sub = {}
        v._z3 = None
        CS._intern[t] = v
    return v


def _norm(rs):
    rs.sort()
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def _compl(r):
    out = []
    p = 0
    for a, b in r:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return out


def _inter(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return out


def of_cps(cps):
    return mk(_norm([(c, c) for c in cps]))


def of_str(s):
    return of_cps([ord(c) for c in s])


def of_ranges(*rs):
    return mk(_norm(list(rs)))


def compl(s):
    return mk(_compl(s.r))


EMPTY = mk(())
ALL = of_ranges((0, MAXCP))
SCALAR = of_ranges((0, 0xD7FF), (0xE000, MAXCP))

_single = {}


def single(ch):
    v = _single.get(ch)
    if v is None:
        v = _single[ch] = of_cps([ord(ch)])
    return v


_strcache = {}


def chars(s):
    """Set of the characters of str s (cached)."""
    v = _strcache.get(s)
    if v is None:
        v = _strcache[s] = of_str(s)
    return v


_pred = {}


def pred(name):
    """Set of the characters c with str.<name>(c) true."""
    v = _pred.get(name)
    if v is None:
        f = getattr(str, name)
        v = _pred[name] = of_cps(
            [c for c in range(MAXCP + 1) if f(chr(c))])
    return v


def pred_of(name, f):
    v = _pred.get(name)
    if v is None:
        v = _pred[name] = of_cps(
            [c for c in range(MAXCP + 1) if f(chr(c))])
    return v


_cased = None


def cased():
    """Characters whose case mappings are not the identity (finite list)."""
    global _cased
    if _cased is None:
        _cased = [c for c in range(MAXCP + 1)
                  if not (0xD800 <= c <= 0xDFFF) and
                  (chr(c).lower() != chr(c) or chr(c).upper() != chr(c) or
                   chr(c).casefold() != chr(c) or chr(c).title() != chr(c))]
    return _cased
