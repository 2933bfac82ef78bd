"""The re module over symbolic strings.

Patterns are parsed with CPython's own regular-expression parser; matching is
a backtracking matcher with sre's priorities whose character tests fork the
path.  On fully concrete subjects the real re module is used.
"""
import re
import re._parser as _p
import re._compiler as _c
import re._constants as K

from . import charset
from .engine import E, Inconclusive
from .strs import SymStr, mk, tup, concretize, is_str

_sets = {}


class Unsup(Exception):
    pass


def _item_set(item, flags):
    op, av = item
    if op is K.LITERAL:
        return charset.of_cps([av])
    if op is K.NOT_LITERAL:
        return charset.compl(charset.of_cps([av]))
    if op is K.RANGE:
        return charset.of_ranges(av)
    if op is K.ANY:
        if flags & re.DOTALL:
            return charset.ALL
        return charset.compl(charset.chars('\n'))
    if op is K.CATEGORY:
        a = flags & re.ASCII
        base, neg = {
            K.CATEGORY_DIGIT: ('d', 0), K.CATEGORY_NOT_DIGIT: ('d', 1),
            K.CATEGORY_SPACE: ('s', 0), K.CATEGORY_NOT_SPACE: ('s', 1),
            K.CATEGORY_WORD: ('w', 0), K.CATEGORY_NOT_WORD: ('w', 1)}[av]
        if base == 'd':
            s = charset.of_ranges((48, 57)) if a else \
                charset.pred('isdecimal')
        elif base == 's':
            s = charset.of_str(' \t\n\r\f\v') if a else \
                charset.pred('isspace')
        else:
            s = charset.of_str(
                'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
                '0123456789_') if a else \
                charset.pred('isalnum') | charset.chars('_')
        return charset.compl(s) if neg else s
    if op is K.IN:
        neg = False
        s = charset.EMPTY
        for it in av:
            if it[0] is K.NEGATE:
                neg = True
            else:
                s = s | _item_set(it, flags)
        return charset.compl(s) if neg else s
    raise Unsup(op)


def _freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(_freeze(y) for y in x)
    return x


def char_set(item, flags):
    """Exact set of the characters that one-character item matches."""
    key = (_freeze(item), int(flags) & (re.I | re.S | re.A | re.L))
    s = _sets.get(key)
    if s is not None:
        return s
    s = _item_set(item, flags)
    if flags & re.IGNORECASE and item[0] is not K.ANY:
        # let the real engine decide for the characters with case
        st = _p.State()
        st.flags = int(flags)
        st.str = ''
        sp = _p.SubPattern(st, [item])
        m = _c.compile(sp, int(flags)).match
        yes = [c for c in charset.cased() if m(chr(c))]
        s = (s - charset.of_cps(charset.cased())) | charset.of_cps(yes)
    _sets[key] = s
    return s


class Prog(object):
    """Compiled closures for one pattern."""

    def __init__(self, pat, flags):
        self.pat = re.compile(pat, flags)
        self.flags = self.pat.flags
        sp = _p.parse(pat, flags)
        self.ngroups = self.pat.groups
        self.names = self.pat.groupindex
        self.anchored = False
        self.m = self.seq(list(sp), self.flags)

    # Each compiled node is  f(st, i, k) -> end position or None, where
    # k(i) is the continuation.
    def seq(self, items, flags):
        fs = [self.node(it, flags) for it in items]
        if not fs:
            return lambda st, i, k: k(i)
        if len(fs) == 1:
            return fs[0]

        def run(st, i, k, fs=fs, n=len(fs)):
            def at(j, i):
                if j == n:
                    return k(i)
                return fs[j](st, i, lambda e: at(j + 1, e))
            return at(0, i)
        return run

    def node(self, item, flags):
        op, av = item
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY, K.RANGE,
                  K.CATEGORY):
            cs = char_set(item, flags)

            def one(st, i, k):
                E.work += 1
                if i < st.end and E.test(st.c[i], cs):
                    return k(i + 1)
                return None
            one.cs = cs
            return one
        if op is K.SUBPATTERN:
            g, add, sub, p = av
            f = self.seq(list(p), (flags | add) & ~sub)
            if g is None:
                return f

            def grp(st, i, k):
                old = st.g[g]
                oldl = st.last

                def done(e):
                    prev = st.g[g]
                    st.g[g] = (i, e)
                    pl = st.last
                    st.last = g
                    r = k(e)
                    if r is None:
                        st.g[g] = prev
                        st.last = pl
                    return r
                r = f(st, i, done)
                if r is None:
                    st.g[g] = old
                    st.last = oldl
                return r
            return grp
        if op is K.BRANCH:
            alts = [self.seq(list(p), flags) for p in av[1]]

            def br(st, i, k):
                for a in alts:
                    r = a(st, i, k)
                    if r is not None:
                        return r
                return None
            return br
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = None if hi is K.MAXREPEAT else hi
            body = self.seq(list(p), flags)
            if op is K.POSSESSIVE_REPEAT:
                f = self.greedy(lo, hi, body)
                return self.atomic(f)
            if op is K.MAX_REPEAT:
                cs = getattr(body, 'cs', None)
                if cs is not None:
                    return self.greedy_set(lo, hi, cs)
                return self.greedy(lo, hi, body)
            return self.lazy(lo, hi, body)
        if op is K.AT:
            return self.at(av, flags)
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            f = self.seq(list(p), flags)
            if d < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsup('lookbehind')
                w = w[0]

                def look(st, i):
                    return i - w >= 0 and f(
                        st, i - w,
                        lambda e: e if e == i else None) is not None
            else:
                def look(st, i):
                    return f(st, i, lambda e: e) is not None
            if op is K.ASSERT:
                return lambda st, i, k: k(i) if look(st, i) else None
            return lambda st, i, k: None if look(st, i) else k(i)
        if op is K.GROUPREF:
            def ref(st, i, k):
                if st.g[av] is None:
                    return None
                a, b = st.g[av]
                n = b - a
                if i + n > st.end:
                    return None
                for x in range(n):
                    if not E.eq(st.c[a + x], st.c[i + x]):
                        return None
                return k(i + n)
            return ref
        if op is K.GROUPREF_EXISTS:
            g, y, n = av
            fy = self.seq(list(y), flags)
            fn = self.seq(list(n), flags) if n else \
                (lambda st, i, k: k(i))
            return lambda st, i, k: (fy if st.g[g] else fn)(st, i, k)
        if op is K.ATOMIC_GROUP:
            return self.atomic(self.seq(list(av), flags))
        raise Unsup(str(op))

    @staticmethod
    def atomic(f):
        def at(st, i, k):
            e = f(st, i, lambda e: e)
            return None if e is None else k(e)
        return at

    @staticmethod
    def greedy_set(lo, hi, cs):
        def rep(st, i, k):
            n = 0
            c = st.c
            end = st.end
            test = E.test
            while (hi is None or n < hi) and i + n < end and \
                    test(c[i + n], cs):
                n += 1
            E.work += n
            while n >= lo:
                r = k(i + n)
                if r is not None:
                    return r
                n -= 1
                tick()
            return None
        return rep

    @staticmethod
    def greedy(lo, hi, body):
        def rep(st, i, k):
            def at(n, i, last):
                tick()
                if n < lo:
                    return body(st, i, lambda e: at(n + 1, e, i))
                if (hi is None or n < hi) and i != last:
                    r = body(st, i, lambda e: at(n + 1, e, i))
                    if r is not None:
                        return r
                return k(i)
            return at(0, i, -1)
        return rep

    @staticmethod
    def lazy(lo, hi, body):
        def rep(st, i, k):
            def at(n, i, last):
                tick()
                if n < lo:
                    return body(st, i, lambda e: at(n + 1, e, i))
                r = k(i)
                if r is not None:
                    return r
                if (hi is None or n < hi) and i != last:
                    return body(st, i, lambda e: at(n + 1, e, i))
                return None
            return at(0, i, -1)
        return rep

    def at(self, av, flags):
        nl = charset.chars('\n')
        if av is K.AT_BEGINNING and not flags & re.MULTILINE or \
           av is K.AT_BEGINNING_STRING:
            return lambda st, i, k: k(i) if i == 0 else None
        if av is K.AT_BEGINNING:
            return lambda st, i, k: k(i) if i == 0 or \
                E.test(st.c[i - 1], nl) else None
        if av is K.AT_END_STRING:
            return lambda st, i, k: k(i) if i == st.end else None
        if av is K.AT_END:
            if flags & re.MULTILINE:
                return lambda st, i, k: k(i) if i == st.end or \
                    E.test(st.c[i], nl) else None
            return lambda st, i, k: k(i) if i == st.end or \
                (i == st.end - 1 and E.test(st.c[i], nl)) else None
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = _item_set((K.CATEGORY, K.CATEGORY_WORD), flags)

            def bd(st, i, k):
                a = i > 0 and E.test(st.c[i - 1], w)
                b = i < st.end and E.test(st.c[i], w)
                return k(i) if (a != b) == (av is K.AT_BOUNDARY) else None
            return bd
        raise Unsup(str(av))


def tick():
    E.work += 1
    if E.work > E.limit:
        E.overwork()


class St(object):
    __slots__ = ('c', 'end', 'g', 'last')


class SymMatch(object):
    def __init__(self, prog, s, start, end, g, last):
        self.re = prog.pat
        self.string = s
        self._s = start
        self._e = end
        self._g = g
        self.lastindex = last
        self._names = prog.names
        self.pos = 0
        self.endpos = len(s)

    def _idx(self, i):
        if is_str(i):
            return self._names[i]
        if not isinstance(i, int) or i < 0 or i >= len(self._g):
            raise IndexError('no such group')
        return i

    def span(self, i=0):
        i = self._idx(i)
        if i == 0:
            return (self._s, self._e)
        return self._g[i] or (-1, -1)

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    def _get(self, i, default=None):
        a, b = self.span(i)
        return default if a < 0 else self.string[a:b]

    def group(self, *a):
        if not a:
            return self._get(0)
        if len(a) == 1:
            return self._get(a[0])
        return tuple(self._get(i) for i in a)

    def __getitem__(self, i):
        return self._get(i)

    def groups(self, default=None):
        return tuple(self._get(i, default)
                     for i in range(1, len(self._g)))

    def groupdict(self, default=None):
        return dict((n, self._get(i, default))
                    for n, i in self._names.items())

    def expand(self, t):
        return expand(self, t)

    @property
    def lastgroup(self):
        for n, i in self._names.items():
            if i == self.lastindex:
                return n
        return None

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(len(self._g)))


def expand(m, t):
    if type(t) is SymStr or '\\' in t:
        import re as _re
        tt = _p.parse_template(concretize(t), m.re)
        out = []
        for x in tt:
            if isinstance(x, int):
                out.append(m._get(x) or '')
            else:
                out.append(x)
        from .strs import join
        return join('', out)
    return t


_progs = {}


def prog(p, flags=0):
    """Prog of a pattern (str or compiled)."""
    if isinstance(p, re.Pattern):
        key = (p.pattern, p.flags)
    else:
        if type(p) is SymStr:
            p = concretize(p)
        key = (p, int(flags) | int(re.UNICODE))
    v = _progs.get(key)
    if v is None:
        v = _progs[key] = Prog(key[0], key[1] & ~int(re.DEBUG))
    return v


def _run(pg, s, i, full=False):
    st = St()
    st.c = tup(s)
    st.end = len(st.c)
    st.g = [None] * (pg.ngroups + 1)
    st.last = None
    e = pg.m(st, i, (lambda x: x if x == st.end else None) if full
             else (lambda x: x))
    if e is None:
        return None
    return SymMatch(pg, s, i, e, st.g, st.last)


def _scan(pg, s, i):
    n = len(s)
    first = _first_at(pg)
    while i <= n:
        m = _run(pg, s, i)
        if m is not None:
            return m
        if first and i >= 0:
            return None
        i += 1
    return None


def _first_at(pg):
    """Pattern can only match at position 0."""
    v = getattr(pg, '_first', None)
    if v is None:
        sp = _p.parse(pg.pat.pattern, pg.pat.flags)
        v = bool(len(sp)) and sp[0] == (K.AT, K.AT_BEGINNING) and \
            not pg.pat.flags & re.MULTILINE
        pg._first = v
    return v


def _clip(s, pos, endpos):
    if endpos is not None and endpos < len(s):
        return s[:max(endpos, 0)]
    return s


def conc(*xs):
    for x in xs:
        if type(x) is SymStr:
            return False
    return True


def search(p, s, flags=0, pos=0, endpos=None):
    pg = prog(p, flags)
    if not is_str(s):
        raise TypeError('expected string or bytes-like object')
    s = _clip(s, pos, endpos)
    if type(s) is not SymStr and not E.counting:
        return pg.pat.search(s, pos)
    return _scan(pg, s, max(pos, 0))


def match(p, s, flags=0, pos=0, endpos=None):
    pg = prog(p, flags)
    if not is_str(s):
        raise TypeError('expected string or bytes-like object')
    s = _clip(s, pos, endpos)
    if type(s) is not SymStr and not E.counting:
        return pg.pat.match(s, pos)
    return _run(pg, s, pos) if pos <= len(s) else None


def fullmatch(p, s, flags=0, pos=0, endpos=None):
    pg = prog(p, flags)
    if not is_str(s):
        raise TypeError('expected string or bytes-like object')
    s = _clip(s, pos, endpos)
    if type(s) is not SymStr and not E.counting:
        return pg.pat.fullmatch(s, pos)
    return _run(pg, s, pos, True) if pos <= len(s) else None


def finditer(p, s, flags=0, pos=0, endpos=None):
    pg = prog(p, flags)
    s = _clip(s, pos, endpos)
    if type(s) is not SymStr and not E.counting:
        for m in pg.pat.finditer(s, pos):
            yield m
        return
    i = pos
    n = len(s)
    last_empty = -1     # an empty match may not abut the previous match
    while i <= n:
        m = _scan_from(pg, s, i, last_empty)
        if m is None:
            return
        yield m
        if m._e == m._s:
            last_empty = m._e
            i = m._e
            # next search must be non-empty at i, or start at i+1
            m2 = _run_nonempty(pg, s, i)
            if m2 is not None:
                yield m2
                i = m2._e
                last_empty = -1
            else:
                i += 1
        else:
            i = m._e
            last_empty = -1


def _scan_from(pg, s, i, last_empty):
    return _scan(pg, s, i)


def _run_nonempty(pg, s, i):
    st = St()
    st.c = tup(s)
    st.end = len(st.c)
    st.g = [None] * (pg.ngroups + 1)
    st.last = None
    e = pg.m(st, i, lambda x: x if x != i else None)
    if e is None:
        return None
    return SymMatch(pg, s, i, e, st.g, st.last)


def findall(p, s, flags=0, pos=0, endpos=None):
    out = []
    for m in finditer(p, s, flags, pos, endpos):
        n = m.re.groups
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m.group(1) or '')
        else:
            out.append(tuple(x or '' for x in m.groups()))
    return out


def subn(p, repl, s, count=0, flags=0):
    pg = prog(p, flags)
    if type(s) is not SymStr and type(repl) is not SymStr and \
       not E.counting:
        if not callable(repl):
            return pg.pat.subn(repl, s, count)
    if not is_str(s):
        raise TypeError('expected string or bytes-like object')
    out = []
    i = 0
    n = 0
    for m in finditer(p, s, flags):
        out.extend(tup(s[i:m.start()]))
        if callable(repl):
            out.extend(tup(repl(m)))
        else:
            out.extend(tup(expand(m, repl) if type(m) is SymMatch
                           else m.expand(concretize(repl))
                           if '\\' in concretize(repl) else repl))
        i = m.end()
        n += 1
        if count and n >= count:
            break
    out.extend(tup(s[i:]))
    return mk(out), n


def sub(p, repl, s, count=0, flags=0):
    return subn(p, repl, s, count, flags)[0]


def split(p, s, maxsplit=0, flags=0):
    pg = prog(p, flags)
    if type(s) is not SymStr and not E.counting:
        return pg.pat.split(s, maxsplit)
    out = []
    i = 0
    n = 0
    for m in finditer(p, s, flags):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[i:m.start()])
        out.extend(m.groups())
        i = m.end()
        n += 1
    out.append(s[i:])
    return out


def escape(s):
    return re.escape(concretize(s))


# -- where a pattern repeats something --------------------------------------

def _least(items, flags):
    """classes of the characters of a shortest match"""
    out = []
    for op, av in items:
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY, K.RANGE,
                  K.CATEGORY):
            out.append(char_set((op, av), flags))
        elif op is K.SUBPATTERN:
            g, add, sub, p = av
            out += _least(list(p), (flags | add) & ~sub)
        elif op is K.ATOMIC_GROUP:
            out += _least(list(av), flags)
        elif op is K.BRANCH:
            out += min((_least(list(p), flags) for p in av[1]), key=len)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            out += _least(list(av[2]), flags) * av[0]
    return out


def _loops(items, flags, pre, out):
    for op, av in items:
        if op is K.SUBPATTERN:
            g, add, sub, p = av
            _loops(list(p), (flags | add) & ~sub, pre, out)
        elif op is K.ATOMIC_GROUP:
            _loops(list(av), flags, pre, out)
        elif op is K.BRANCH:
            for p in av[1]:
                _loops(list(p), flags, pre, out)
        elif op in (K.ASSERT, K.ASSERT_NOT) and av[0] > 0:
            _loops(list(av[1]), flags, pre, out)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            if av[1] > 8:
                out.append(list(pre))
            _loops(list(av[2]), flags, pre, out)
        pre = pre + _least([(op, av)], flags)


def loops(p):
    """For every unbounded repetition of a pattern, the classes of the
    characters of a shortest text that leads to it."""
    out = []
    seen = set()
    _loops(list(_p.parse(p.pattern, p.flags & ~int(re.DEBUG))), p.flags, [],
           out)
    res = []
    for x in out:
        k = tuple(c.id for c in x)
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res
