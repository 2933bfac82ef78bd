"""Python written in many ways: every function takes one or two strings and
has to come out the same symbolically and natively (tools/selftest.py)."""
import collections
import functools
import html
import itertools
import operator
import re
import string
from collections import defaultdict, namedtuple, OrderedDict, Counter, deque
from dataclasses import dataclass, field
from enum import Enum, IntEnum


@functools.lru_cache(maxsize=None)
def kind(c):
    return 'sp' if c in ' \t' else 'p' if c in string.punctuation else 'x'


def lru(a, b):
    return [kind(c) for c in a + b]


@functools.lru_cache(maxsize=1)
def pair(a, b):
    return [a, b]


def lru2(a, b):
    x = pair(a, b)
    y = pair(b, a)
    return x is y, x, y


def dict_display(a, b):
    return {a: 1, b: 2, 'x': 3}.get('x')


def dict_comp(a, b):
    d = {c: i for i, c in enumerate(a + b)}
    return sorted(d.values()), len(d)


def set_display(a, b):
    return len({a, b, '*'})


def set_comp(a, b):
    return len({c for c in a + b}), 'x' in {c for c in a}


def tuple_key(a, b):
    d = {('*', '_'): 1, ('x', 'y'): 2}
    return d.get((a[0], b[0]), 0)


def tuple_memo(a, b):
    memo = {}
    out = []
    for k in ((a, 1), (b, 1), ('q', 1)):
        if k not in memo:
            memo[k] = len(memo)
        out.append(memo[k])
    return out


def default_dict(a, b):
    d = defaultdict(list)
    for i, c in enumerate(a + b):
        d[c].append(i)
    return list(d.values())


def counter(a, b):
    return a.count('*') + b.count('*')


def od(a, b):
    d = OrderedDict()
    d[a] = 1
    d.setdefault(b, 2)
    return list(d.values()), [k for k in d]


def iter_dict(a, b):
    d = {}
    d[a] = 0
    d[b] = 1
    return ''.join(k for k in d), [v for k, v in d.items()], list(d)


def update(a, b):
    d = {'k': 1}
    d.update({a: 2})
    d.update(z=3)
    return d.get('k'), d.get('z')


def match_str(a, b):
    match a:
        case '*' | '_':
            return 1
        case ' ':
            return 2
        case x if x == b:
            return 3
        case _:
            return 4


def match_tuple(a, b):
    match (a[:1], b[:1]):
        case ('*', y):
            return y
        case (x, '*'):
            return x
        case _:
            return ''


def match_dict(a, b):
    match {'t': a}:
        case {'t': '*'}:
            return 1
        case {'t': t}:
            return t


def takewhile(a, b):
    return ''.join(itertools.takewhile(str.isspace, a + b))


def dropwhile(a, b):
    return ''.join(itertools.dropwhile(' \t'.__contains__, a + b))


def groupby(a, b):
    return [(k, len(list(g))) for k, g in itertools.groupby(a + b)]


def groupby2(a, b):
    return [len(list(g)) for k, g in itertools.groupby(a + b, str.isalnum)]


def reduce_(a, b):
    return functools.reduce(operator.add, [a, b], '')


def partial_(a, b):
    f = functools.partial(re.sub, '[*]', 'S')
    return f(a + b)


def mapstrip(a, b):
    return list(map(str.strip, [a, b]))


def filt(a, b):
    return ''.join(filter(str.isdigit, a + b))


def filterfalse(a, b):
    return ''.join(itertools.filterfalse(lambda c: c == '*', a + b))


def methodcaller(a, b):
    return operator.methodcaller('strip', '*')(a + b)


def itemgetter(a, b):
    return operator.itemgetter(0)(a), operator.itemgetter(a[0])({
        a[0]: 1, 'q': 2})


def maketrans(a, b):
    return (a + b).translate(str.maketrans({'*': 'S', 'x': None}))


def maketrans2(a, b):
    return (a + b).translate(str.maketrans('*_', '_*', ' '))


class Escape(dict):
    def __missing__(self, k):
        return self.setdefault(k, k * 2)


def missing(a, b):
    return ''.join(Escape({'&': '&amp;'})[c] for c in a + b)


def fstr(a, b):
    return f'<{a}>{b!s:>4}{len(a):03d}{a:^5}|'


def fmt(a, b):
    return '{0}{1}{x[0]}'.format(a, b, x=a), '%s-%5s-%(x)s' % {'x': 1} \
        if False else '%s-%s' % (a, b)


def tmpl(a, b):
    return ''.join(['<', a, '>']) + a.center(5, '.') + b.ljust(3) + b.rjust(4)


def walrus(a, b):
    if (m := re.match(r'[*_]+', a)) and (n := len(m.group())) >= 1:
        return n
    return 0


def any_all(a, b):
    return any(c in '*_' for c in a), all(c.isspace() for c in b)


def gen(a, b):
    def g():
        for c in a + b:
            if c == '*':
                return
            yield c
    return ''.join(g())


def nxt(a, b):
    return next((i for i, c in enumerate(a + b) if c == '*'), -1)


def zipped(a, b):
    return [x == y for x, y in zip(a, b)], list(zip(a, itertools.count()))


def zip_longest(a, b):
    return [x == y for x, y in itertools.zip_longest(a, b, fillvalue='')]


def star(a, b):
    h, *t = a + b
    return h, t


def chain(a, b):
    return ''.join(itertools.chain.from_iterable([a, b])), \
        ''.join(itertools.chain(a, '-', b)), \
        ''.join(itertools.islice(a + b, 1, None))


def accumulate(a, b):
    return list(itertools.accumulate(a + b, operator.add))


def pairwise(a, b):
    return [x == y for x, y in itertools.pairwise(a + b)]


def part(a, b):
    return (a + b).partition('*'), (a + b).rpartition('*')


def split(a, b):
    return (a + ' ' + b).split(), (a + '*' + b).split('*', 1), \
        (a + '\n' + b).splitlines(True), (a + b).rsplit('*', 1)


def strips(a, b):
    s = a + b
    return s.lstrip('*'), s.rstrip(), s.removeprefix('*'), \
        s.removesuffix('*'), s.strip(' *')


def cases(a, b):
    return a.lower(), b.upper(), a.casefold() == b.casefold()


def classes(a, b):
    return [f(a) for f in (str.isspace, str.isdigit, str.isalpha,
                           str.isalnum, str.isascii, str.isidentifier,
                           str.isprintable, str.isupper, str.islower)]


def compare(a, b):
    return a < b, a <= 'm' <= b, 'a' <= a[0] <= 'z', max(a, b), min(a + b)


def sort(a, b):
    return sorted(a + b), sorted(a + b, key=str.lower), \
        ''.join(sorted(set(a + b)))


def ords(a, b):
    return 0x20 < ord(a[0]) < 0x7f, chr(ord(b[0]) ^ 0) if False else ord(b[0])


def arith(a, b):
    n = ord(a[0]) - 48
    return n * 2 + 1, n if 0 <= n <= 9 else None


def find(a, b):
    s = a + b
    return s.find('*'), s.rfind('*'), s.count('*'), s.find('*', 1)


def index(a, b):
    try:
        return (a + b).index('*')
    except ValueError as e:
        return str(e)


def slices(a, b):
    s = a + b
    return s[::-1], s[1:], s[-1], s[::2], s[:-1]


def startends(a, b):
    s = a + b
    return s.startswith(('*', '_')), s.endswith('x'), s.startswith('*', 1)


def sub(a, b):
    s = a + b
    return re.sub(r'[*]+', lambda m: '<%d>' % len(m.group()), s), \
        re.sub('([a-z])', r'[\1]', s), re.split(r'\s+', s), \
        [m.start() for m in re.finditer('[*]', s)], re.findall('.', s)


def named(a, b):
    m = re.match(r'(?P<h>[*])?(?P<t>.*)', a + b, re.S)
    return m.groupdict(), m['t'], m.lastgroup, m.span('t'), m.end()


def scanner(a, b):
    out = []
    s = a + b
    i = 0
    p = re.compile(r'\s+|[*_]|\w+|.', re.S)
    while i < len(s):
        m = p.match(s, i)
        out.append(m.group())
        i = m.end()
    return out


def fullmatch(a, b):
    return bool(re.fullmatch(r'\d+', a)), bool(re.search(r'(?i)x', b))


class Kind(Enum):
    STAR = '*'
    OTHER = 'o'

    @classmethod
    def of(cls, c):
        return cls.STAR if c == cls.STAR.value else cls.OTHER


def enum(a, b):
    return Kind.of(a[0]).name, Kind.of(b[0]) is Kind.STAR


class Num(IntEnum):
    A = 1
    B = 2


def intenum(a, b):
    return Num(1 if a == '*' else 2) == Num.A


@dataclass
class DC:
    a: str
    b: str = ''
    c: list = field(default_factory=list)


def dc(a, b):
    x, y = DC(a, b), DC(b, a)
    x.c.append(a)
    return x == y, x.a, x.c


NT = namedtuple('NT', 'a b')


def nt(a, b):
    x = NT(a, b)
    return x == NT(b, a), x._replace(a='q').b, x[0]


class Slot:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    @property
    def up(self):
        return self.v + '!'

    def __len__(self):
        return len(self.v)

    def __eq__(self, o):
        return self.v == o.v

    def __hash__(self):
        return hash(self.v)


def slots(a, b):
    return Slot(a).up, Slot(a) == Slot(b), len(Slot(b))


class Buf:
    def __init__(self):
        self.parts = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.parts.append('end')

    def __iadd__(self, s):
        self.parts.append(s)
        return self

    def __str__(self):
        return ''.join(self.parts)


def ctx(a, b):
    with Buf() as x:
        x += a
        x += b
    return str(x), '%s' % x, f'{x}'


def dq(a, b):
    d = deque([a, b])
    d.appendleft('q')
    d.rotate(1)
    return list(d), a in d


def unescape(a, b):
    return html.unescape('&' + a + ';'), html.escape(b)


def ternary(a, b):
    return (a or 'e') + (b and 'f'), not a


def loop_else(a, b):
    for i, c in enumerate(a):
        if c == '*':
            break
    else:
        return 'none'
    return i


def while_else(a, b):
    i = 0
    while i < len(a):
        if a[i] == '*':
            break
        i += 1
    else:
        return -1
    return i


def try_int(a, b):
    try:
        return int(a + b)
    except ValueError:
        return None


def in_tuple(a, b):
    return a in ('*', '_', 'xy'), b in ['**', a], a in {'*': 1}, \
        b in frozenset('*_')


def dispatch(a, b):
    table = {'*': lambda: 'star', '_': lambda: 'us'}
    return table.get(a[0], lambda: 'none')()


def dispatch2(a, b):
    return getattr(Handler(), 'on_' + {'*': 'star'}.get(a[0], 'none'))(b)


class Handler:
    def on_star(self, b):
        return b + '1'

    def on_none(self, b):
        return b + '2'


def bytes_(a, b):
    return len(a.encode('utf-8')), a.encode('ascii', 'ignore') == b'x'


def expand(a, b):
    return (a + b).expandtabs(4), len((a + b).expandtabs(4))


def recursion(a, b):
    def f(s):
        return s if len(s) < 2 else f(s[1:]) + s[0]
    return f(a + b)


def nonlocal_(a, b):
    n = 0

    def inc(c):
        nonlocal n
        n += c == '*'
    for c in a + b:
        inc(c)
    return n


def boolsum(a, b):
    return sum(c == '*' for c in a + b), sum(map('*_'.count, a)) 


def mult(a, b):
    return a * 2 + '-' * len(b), [a] * 2


def lists(a, b):
    x = [a, b, '*']
    return x.index('*'), x.count('*'), '*' in x, x == [b, a, '*']


def string_consts(a, b):
    return a[0] in string.ascii_letters, b[0] in string.digits, \
        b[0] in string.whitespace


def bisecting(a, b):
    import bisect
    return bisect.bisect_left([48, 58, 97], ord(a[0]))


def key_func(a, b):
    return max([a, b, ''], key=len), sorted([a, b], key=lambda s: s != '*')


def setops(a, b):
    return bool(set(a) & set('*_')), set(a).issubset('*_ '), \
        set('*').isdisjoint(a), len(set(a) | set(b)), \
        '*' in (set(a) - set(b) if False else set(a) ^ set(b))


def strip_map(a, b):
    return [*map(len, (a + ' ' + b).split())], ''.join(reversed(a + b))


def ljust_tab(a, b):
    col = 0
    for c in a + b:
        if c == '\t':
            col += 4 - col % 4
        else:
            col += 1
    return col


def cmp_chain(a, b):
    return a == b == '*', a != b, (a, b) == (b, a), [a] == [b]


def hash_same(a, b):
    seen = set()
    out = []
    for c in a + b:
        if c not in seen:
            seen.add(c)
            out.append(c)
    return out


def bytearr(a, b):
    s = list(a + b)
    s[0] = 'q'
    s.insert(0, b)
    return ''.join(s)


def format_map(a, b):
    return '{x}-{y}'.format_map({'x': a, 'y': b})


def join_gen(a, b):
    return '-'.join(c if c != '*' else '' for c in a + b)


def swap(a, b):
    a, b = b, a
    return a, b


def repl(a, b):
    return (a + b).replace('*', '<>').replace('<', '&lt;').replace('x', '', 1)


def num_cmp(a, b):
    n = len(a.lstrip(' '))
    return n >= 1, divmod(n, 2), -n, n ** 2, n & 1


def iter_next(a, b):
    s = a + b
    i = iter(s)
    return next(iter(s[1:2]), None), next(i, ''), list(i), \
        any(iter(s)), all(x for x in s), callable(s)


def two_iters(a, b):
    i = iter(a + b)
    out = []
    for x in i:
        if x == '*':
            out.append(next(i, '<end>'))
        elif x == ' ':
            break
    return out, ''.join(i)


def sentinel(a, b):
    s = list(a + b)
    return list(iter(lambda: s.pop() if s else None, None))
