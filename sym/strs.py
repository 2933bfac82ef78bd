"""Symbolic strings, integers and byte strings.

A SymStr has a concrete length; its elements are one-character strs or
symbolic characters.  Anything that comes out fully concrete is an ordinary
str.  All methods follow the semantics of str.
"""
import os

from . import charset
from .engine import E, SymC, SymG, CMap, Inconclusive, _z3
from . import engine as _eng

WS = None


class Unsupported(Exception):
    pass


def ws():
    global WS
    if WS is None:
        WS = charset.pred('isspace')
    return WS


def mk(seq):
    out = []
    sym = False
    conc = E.concrete
    for ch in seq:
        if type(ch) is not str:
            c = conc(ch)
            if c is None:
                sym = True
            else:
                ch = c
        out.append(ch)
    return SymStr(tuple(out)) if sym else ''.join(out)


def tup(s):
    if type(s) is SymStr:
        return s.c
    if isinstance(s, str):
        return tuple(s)
    raise TypeError('expected str instance, %s found' % type(s).__name__)


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    eq = E.eq
    # concrete mismatches first: no fork needed to tell them apart
    for x, y in zip(a, b):
        if E.same(x, y) is False:
            return False
    for x, y in zip(a, b):
        if not eq(x, y):
            return False
    return True


_maps = {}


def case_map(name):
    """(CMap for 1-to-1 part, {cp: str} for longer expansions)"""
    v = _maps.get(name)
    if v is None:
        f = getattr(str, name)
        one = {}
        many = {}
        for c in charset.cased():
            r = f(chr(c))
            if len(r) == 1:
                one[c] = ord(r)
            else:
                many[c] = r
        v = _maps[name] = (CMap(one), many, charset.of_cps(many))
    return v


def map_char(ch, m):
    """Apply CMap m to a character."""
    if type(ch) is str:
        return chr(m(ord(ch)))
    if type(ch) is SymC:
        if not (E.rng(ch) & m.keys).n:
            return ch
        return SymC(ch.v, _eng.map_then(m, ch.m))
    if not (ch.rng & m.keys).n:
        return ch
    _z3()
    e = _eng.map_formula(m, ch.e, ch.rng)
    return SymG(e, ch.vs, m.image(ch.rng))


def map_str(s, one, many, manyset):
    """Apply a character-to-string function (forks on the long cases)."""
    out = []
    for ch in tup(s):
        if type(ch) is str:
            o = ord(ch)
            if o in many:
                out.extend(many[o])
            else:
                out.append(chr(one(o)))
            continue
        if manyset.n and E.test(ch, manyset):
            # one fork per expansion
            for cp in manyset:
                if E.test(ch, charset.of_cps([cp])):
                    out.extend(many[cp])
                    break
            continue
        out.append(map_char(ch, one))
    return mk(out)


def case(s, name):
    one, many, ms = case_map(name)
    return map_str(s, one, many, ms)


def _chset(chars):
    """Character set argument of strip() and friends -> CS or list."""
    if chars is None:
        return ws()
    if isinstance(chars, str):
        return charset.chars(chars)
    return None


class SymStr(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    # basics
    def __len__(self):
        return len(self.c)

    def __iter__(self):
        for ch in self.c:
            yield mk((ch,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk(self.c[k])
        if isinstance(k, SymInt):
            k = k.__index__()
        try:
            return mk((self.c[k],))
        except IndexError:
            raise IndexError('string index out of range')

    def __add__(self, o):
        if type(o) is SymStr:
            return SymStr(self.c + o.c)
        if isinstance(o, str):
            return SymStr(self.c + tuple(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(tuple(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.c * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if type(o) is SymStr:
            return seq_eq(self.c, o.c)
        if isinstance(o, str):
            if len(o) != len(self.c):
                return False
            return seq_eq(self.c, o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _cmp(self, o):
        a, b = self.c, tup(o)
        for x, y in zip(a, b):
            if E.eq(x, y):
                continue
            return -1 if char_lt(x, y) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __hash__(self):
        return hash(concretize(self))

    def __str__(self):
        return concretize(self)

    def __repr__(self):
        return '<sym %s>' % ''.join(
            c if type(c) is str else '?' for c in self.c)

    def __format__(self, spec):
        return format(concretize(self), spec)

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __mod__(self, args):
        from . import hooks
        return hooks.mod(self, args)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if hasattr(str, name):
            def f(*a, **k):
                return getattr(concretize(self), name)(
                    *[concretize(x) for x in a],
                    **dict((i, concretize(x)) for i, x in k.items()))
            return f
        raise AttributeError(
            "'str' object has no attribute %r" % name)

    # search
    def _range(self, start, end):
        n = len(self.c)
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        s, e = self._range(start, end)
        t = tup(p)
        return s + len(t) <= e and seq_eq(self.c[s:s + len(t)], t)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        s, e = self._range(start, end)
        t = tup(p)
        return e - len(t) >= s and seq_eq(self.c[e - len(t):e], t)

    def find(self, sub, start=None, end=None):
        t = tup(sub)
        n = len(t)
        s, e = self._range(start, end)
        if start is not None and start > len(self.c):
            return -1
        for i in range(s, e - n + 1):
            if seq_eq(self.c[i:i + n], t):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        t = tup(sub)
        n = len(t)
        s, e = self._range(start, end)
        for i in range(e - n, s - 1, -1):
            if seq_eq(self.c[i:i + n], t):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        t = tup(sub)
        s, e = self._range(start, end)
        if not t:
            return e - s + 1
        n = 0
        i = s
        while True:
            j = self.find(sub, i, e)
            if j < 0:
                return n
            n += 1
            i = j + len(t)

    def replace(self, old, new, count=-1):
        o = tup(old)
        nw = tup(new)
        if not o:
            return mk(tuple(concretize(self).replace(
                '', concretize(new), count)))
        out = []
        i = 0
        c = self.c
        while i < len(c):
            if count != 0 and i + len(o) <= len(c) and \
               seq_eq(c[i:i + len(o)], o):
                out.extend(nw)
                i += len(o)
                count -= 1
            else:
                out.append(c[i])
                i += 1
        return mk(out)

    # trimming
    def _in(self, ch, chars):
        cs = _chset(chars)
        if cs is not None:
            return E.test(ch, cs)
        return any(E.eq(ch, x) for x in tup(chars))

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._in(self.c[i], chars):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, chars=None):
        j = len(self.c)
        while j > 0 and self._in(self.c[j - 1], chars):
            j -= 1
        return mk(self.c[:j])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) \
            else self

    # splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            i = 0
            n = len(self.c)
            W = ws()
            while True:
                while i < n and E.test(self.c[i], W):
                    i += 1
                if i >= n:
                    return out
                if maxsplit == 0:
                    out.append(mk(self.c[i:]).rstrip())
                    return out
                j = i
                while j < n and not E.test(self.c[j], W):
                    j += 1
                out.append(mk(self.c[i:j]))
                maxsplit -= 1
                i = j
        if not len(sep):
            raise ValueError('empty separator')
        out = []
        i = 0
        while True:
            j = self.find(sep, i) if maxsplit != 0 else -1
            if j < 0:
                out.append(mk(self.c[i:]))
                return out
            out.append(mk(self.c[i:j]))
            maxsplit -= 1
            i = j + len(sep)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        if sep is None:
            return concretize(self).rsplit(None, maxsplit)
        out = []
        e = len(self.c)
        while True:
            j = self.rfind(sep, 0, e) if maxsplit != 0 else -1
            if j < 0:
                out.append(mk(self.c[:e]))
                return out[::-1]
            out.append(mk(self.c[j + len(sep):e]))
            maxsplit -= 1
            e = j

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return self, '', ''
        return self[:j], sep, self[j + len(sep):]

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return '', '', self
        return self[:j], sep, self[j + len(sep):]

    _LB = None

    def splitlines(self, keepends=False):
        if SymStr._LB is None:
            SymStr._LB = charset.of_cps(
                [c for c in range(0x2100) if len(('a%sb' % chr(c))
                                                 .splitlines()) == 2])
        out = []
        i = 0
        n = len(self.c)
        cr = charset.chars('\r')
        nl = charset.chars('\n')
        while i < n:
            j = i
            while j < n and not E.test(self.c[j], SymStr._LB):
                j += 1
            e = j
            if j < n:
                if E.test(self.c[j], cr) and j + 1 < n and \
                   E.test(self.c[j + 1], nl):
                    j += 2
                else:
                    j += 1
            out.append(mk(self.c[i:j if keepends else e]))
            i = j
        return out

    def join(self, items):
        return join(self, items)

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        tab = charset.chars('\t')
        nl = charset.chars('\n\r')
        for ch in self.c:
            if E.test(ch, tab):
                k = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend(' ' * k)
                col += k
            else:
                out.append(ch)
                col = 0 if E.test(ch, nl) else col + 1
        return mk(out)

    # case
    def lower(self):
        if any(0x3a3 in E.rng(ch) for ch in self.c):   # final sigma
            sg = charset.of_cps([0x3a3])
            for ch in self.c:
                if E.test(ch, sg):
                    return concretize(self).lower()
        return case(self, 'lower')

    def upper(self):
        return case(self, 'upper')

    def casefold(self):
        return case(self, 'casefold')

    def swapcase(self):
        return case(self, 'swapcase')

    def translate(self, table):
        if not isinstance(table, dict):
            t = {}
            return concretize(self).translate(table)
        key = id(table), len(table)
        v = _tr.get(key)
        if v is None or v[0] is not table:
            one = {}
            many = {}
            for k, x in table.items():
                if isinstance(x, int):
                    one[k] = x
                elif isinstance(x, str) and len(x) == 1:
                    one[k] = ord(x)
                else:
                    many[k] = x or ''
            v = _tr[key] = (table, CMap(one), many, charset.of_cps(many))
        return map_str(self, v[1], v[2], v[3])

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc not in ('utf-8', 'utf8', 'ascii'):
            return concretize(self).encode(encoding, errors)
        return utf8(self.c, enc, errors)

    # predicates
    def _all(self, name):
        cs = charset.pred(name)
        return all(E.test(ch, cs) for ch in self.c)

    def isspace(self):
        return self._all('isspace')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isprintable(self):
        return self._all('isprintable')

    def isascii(self):
        a = charset.of_ranges((0, 127))
        return all(E.test(ch, a) for ch in self.c)

    # padding
    def ljust(self, n, fill=' '):
        return self + fill * (n - len(self)) if n > len(self) else self

    def rjust(self, n, fill=' '):
        return fill * (n - len(self)) + self if n > len(self) else self

    def zfill(self, n):
        return '0' * (n - len(self)) + self if n > len(self) else self

    def format(self, *a, **k):
        from . import hooks
        return hooks.str_format(self, a, k)

    def isidentifier(self):
        if not E.test(self.c[0], charset.pred('isidentifier')):
            return False
        cs = charset.pred_of('in identifier',
                             lambda c: ('a' + c).isidentifier())
        return all(E.test(ch, cs) for ch in self.c[1:])

    def _cased(self, no, yes):
        r = False
        for ch in self.c:
            if E.test(ch, no):
                return False
            if not r and E.test(ch, yes):
                r = True
        return r

    def isupper(self):
        return self._cased(
            charset.pred_of('lower, title', lambda c: c.islower() or
                            c.istitle() and not c.isupper()),
            charset.pred('isupper'))

    def islower(self):
        return self._cased(charset.pred('istitle'), charset.pred('islower'))

    def center(self, n, fill=' '):
        pad = n - len(self)
        if pad <= 0:
            return self
        left = pad // 2 + (pad & n & 1)
        return fill * left + self + fill * (pad - left)


_tr = {}


def char_lt(x, y):
    cy = E.concrete(y)
    if cy is not None:
        return E.test(x, charset.of_ranges((0, ord(cy) - 1))) \
            if ord(cy) else False
    cx = E.concrete(x)
    if cx is not None:
        return E.test(y, charset.of_ranges((ord(cx) + 1, charset.MAXCP)))
    a, va = E.term(x)
    b, vb = E.term(y)
    return E.fork(a < b, tuple(va) + tuple(vb))


def join(sep, items):
    items = list(items)
    s = tup(sep)
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(s)
        if type(x) is SymStr:
            out.extend(x.c)
        elif isinstance(x, str):
            out.extend(x)
        else:
            raise TypeError('sequence item %d: expected str instance, %s '
                            'found' % (i, type(x).__name__))
    return mk(out)


def concretize(x):
    """Fallback: fix the value by a model of the path.  The rest of the path
    then covers only this value, so the path counts as incomplete."""
    if type(x) is SymStr:
        r = mk(x.c)
        if isinstance(r, str):
            return r
        fix(x.c)
        return mk_fixed(x.c)
    if isinstance(x, SymInt):
        fix_vars(x.vs)
        z3 = _z3()
        sub = [(E.zvar(v), z3.IntVal(E.doms[v].r[0][0])) for v in x.vs]
        return z3.simplify(z3.substitute(x.e, *sub)).as_long()
    if type(x) is SymBytes:
        return bytes(b if type(b) is int else concretize(b) for b in x.b)
    if isinstance(x, tuple):
        return tuple(concretize(y) for y in x)
    if isinstance(x, list):
        return [concretize(y) for y in x]
    return x


def mk_fixed(cs):
    m = dict((v, D.r[0][0]) for v, D in enumerate(E.doms) if D.n == 1)
    return ''.join(E.eval_char(ch, m) for ch in cs)


def fix(cs):
    vs = []
    for ch in cs:
        if type(ch) is SymC:
            vs.append(ch.v)
        elif type(ch) is SymG:
            vs.extend(ch.vs)
    fix_vars(vs)


# where to write the places at which a hole had to be given one value
TRACE = os.environ.get('VERIF_TRACE')


def fix_vars(vs):
    vs = [v for v in vs if E.doms[v].n > 1]
    if not vs:
        return
    E.incomplete = True
    if TRACE:
        import traceback
        with open(TRACE, 'a') as f:
            f.write(''.join(traceback.format_stack()[-9:]) + '====\n')
    m = E.model()
    for v in vs:
        E._shrink(v, charset.of_cps([m[v]]))


# -- integers -----------------------------------------------------------
class SymInt(object):
    """z3 integer term; digits, when it came from a decimal string."""
    __slots__ = ('e', 'vs', 'digits')

    def __init__(self, e, vs, digits=None):
        self.e = e
        self.vs = tuple(vs)
        self.digits = digits

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.e, o.vs
        if isinstance(o, bool):
            return int(o), ()
        if isinstance(o, int):
            return o, ()
        return None, None

    def _bin(self, o, f):
        e, vs = self._o(o)
        if e is None:
            return NotImplemented
        return SymInt(f(self.e, e), self.vs + vs)

    def _cmp(self, o, f):
        e, vs = self._o(o)
        if e is None:
            return NotImplemented
        return E.fork(f(self.e, e), self.vs + vs)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if is_str(o) or isinstance(o, (list, tuple)):
            return o * concretize(self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not isinstance(o, int) or o <= 0:
            return concretize(self) // concretize(o)
        return self._bin(o, lambda a, b: a / b)

    def __mod__(self, o):
        if not isinstance(o, int) or o <= 0:
            return concretize(self) % concretize(o)
        return self._bin(o, lambda a, b: a % b)

    def __rshift__(self, k):
        return self // (1 << k)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return concretize(self) & concretize(o)

    def __neg__(self):
        return SymInt(-self.e, self.vs)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return E.fork(self.e != 0, self.vs)

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __str__(self):
        return concretize(self.to_str())

    def __repr__(self):
        return '<symint>'

    def __format__(self, spec):
        return format(concretize(self), spec)

    def to_str(self):
        if self.digits is not None:
            d = list(self.digits)
            zero = charset.chars('0')
            while len(d) > 1 and E.test(d[0], zero):
                d.pop(0)
            return mk(d)
        if self < 0:
            return '-' + (-self).to_str()
        n = 1
        while not (self < 10 ** n):
            n += 1
            if n > 12:
                raise Inconclusive('integer too long')
        out = []
        D = charset.of_ranges((48, 57))
        for k in range(n - 1, -1, -1):
            e = self.e
            if k:
                e = e / (10 ** k)
            out.append(SymG(e % 10 + 48, self.vs, D))
        return mk(out)


_digitmap = None


def digit_map():
    global _digitmap
    if _digitmap is None:
        import unicodedata
        _digitmap = CMap(dict(
            (c, 48 + unicodedata.decimal(chr(c)))
            for c in charset.pred('isdecimal')))
    return _digitmap


def to_int(s, base=10):
    """int(s, base) for a symbolic string."""
    if base not in (10, 16):
        return int(concretize(s), base)
    t = s.strip()
    c = list(tup(t))
    if not c:
        raise ValueError('invalid literal for int()')
    neg = False
    if E.test(c[0], charset.chars('+-')):
        neg = E.test(c[0], charset.chars('-'))
        c = c[1:]
    if base == 16 and len(c) > 2 and E.test(c[0], charset.chars('0')) and \
       E.test(c[1], charset.chars('xX')):
        c = c[2:]
    dec = charset.pred('isdecimal')
    ok = dec if base == 10 else dec | charset.of_str('abcdefABCDEF')
    digs = []
    for i, ch in enumerate(c):
        if E.test(ch, ok):
            digs.append(map_char(ch, digit_map()))
        elif 0 < i < len(c) - 1 and E.test(ch, charset.chars('_')):
            if E.test(c[i + 1], charset.chars('_')):
                raise ValueError('invalid literal for int()')
        else:
            raise ValueError('invalid literal for int()')
    if not digs:
        raise ValueError('invalid literal for int()')
    z3 = _z3()
    e = z3.IntVal(0)
    vs = []
    for ch in digs:
        x, w = E.term(ch)
        vs.extend(w)
        if base == 16:
            if type(ch) is str:
                x = z3.IntVal(int(ch, 16))
            else:
                # only the ranges still possible
                r = E.rng(ch)
                parts = [(charset.of_ranges((48, 57)), x - 48),
                         (charset.of_ranges((65, 70)), x - 55),
                         (charset.of_ranges((97, 102)), x - 87)]
                parts = [(q, y) for q, y in parts if (q & r).n]
                v = parts[-1][1]
                for q, y in reversed(parts[:-1]):
                    v = z3.If(q.formula(x, z3), y, v)
                x = v
        else:
            x = x - 48
        e = e * base + x
    if not vs:
        return z3.simplify(-e if neg else e).as_long()
    if neg:
        return SymInt(-e, vs)
    return SymInt(e, vs, tuple(digs) if base == 10 else None)


def sym_chr(n):
    if not isinstance(n, SymInt):
        return chr(n)
    if n < 0 or n > charset.MAXCP:
        raise ValueError('chr() arg not in range(0x110000)')
    return mk((SymG(n.e, n.vs, charset.ALL),))


def sym_ord(s):
    c = tup(s)
    if len(c) != 1:
        raise TypeError('ord() expected a character')
    x = E.concrete(c[0])
    if x is not None:
        return ord(x)
    e, vs = E.term(c[0])
    return SymInt(e, vs)


# -- bytes --------------------------------------------------------------
class SymBytes(object):
    """bytes whose elements are ints or SymInt (0..255)."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(self.b)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes(self.b[k])
        return self.b[k]

    def __add__(self, o):
        return SymBytes(self.b + tuple(o))

    def __radd__(self, o):
        return SymBytes(tuple(o) + self.b)

    def __eq__(self, o):
        if not isinstance(o, (bytes, SymBytes)) or len(o) != len(self):
            return False
        return all(x == y for x, y in zip(self.b, o))

    def __hash__(self):
        return hash(concretize(self))

    def decode(self, encoding='utf-8', errors='strict'):
        return concretize(self).decode(encoding, errors)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(concretize(self), name)


def utf8(cs, enc, errors):
    out = []
    z3 = _z3()
    A = charset.of_ranges((0, 0x7f))
    B = charset.of_ranges((0x80, 0x7ff))
    C = charset.of_ranges((0x800, 0xffff))
    SUR = charset.of_ranges((0xd800, 0xdfff))
    for ch in cs:
        c = E.concrete(ch)
        if c is not None:
            out.extend(c.encode(enc, errors))
            continue
        if E.test(ch, A):
            e, vs = E.term(ch)
            out.append(ByteOf(e, vs, ch))
            continue
        if enc == 'ascii' or E.test(ch, SUR):
            fix((ch,))
            out.extend(mk_fixed((ch,)).encode(enc, errors))
            continue
        e, vs = E.term(ch)
        if E.test(ch, B):
            parts = [0xC0 + e / 64]
            n = 1
        elif E.test(ch, C):
            parts = [0xE0 + e / 4096, 0x80 + (e / 64) % 64]
        else:
            parts = [0xF0 + e / 262144, 0x80 + (e / 4096) % 64,
                     0x80 + (e / 64) % 64]
        parts.append(0x80 + e % 64)
        for p in parts:
            out.append(ByteOf(p, vs, None))
    if all(type(b) is int for b in out):
        return bytes(out)
    return SymBytes(out)


class ByteOf(SymInt):
    """A byte; ch is the character when it is an ASCII one."""
    __slots__ = ('ch',)

    def __init__(self, e, vs, ch):
        SymInt.__init__(self, e, vs)
        self.ch = ch
