"""What the transformed code calls instead of the native operations."""
import builtins
import functools
import html as _html
import io
import itertools
import operator
import json as _json
import re
import string as _string
import types
import urllib.parse

from . import charset, sre
from .engine import E, PMap, SymG, SymC, _z3
from .strs import (SymStr, SymInt, SymBytes, ByteOf, mk, tup, is_str, join,
                   concretize, to_int, sym_chr, sym_ord, map_char)

SYM = (SymStr, SymInt, SymBytes, ByteOf)


def is_sym(x):
    return type(x) in SYM


def any_sym(a, k=None):
    for x in a:
        if type(x) in SYM:
            return True
    if k:
        for x in k.values():
            if type(x) in SYM:
                return True
    return False


def deep_sym(x, d=0):
    if type(x) in SYM:
        return True
    if d > 4:
        return False
    if type(x) in (list, tuple, set, frozenset):
        return any(deep_sym(y, d + 1) for y in x)
    if type(x) is dict:
        return any(deep_sym(y, d + 1) for y in x.values())
    return False


def printable(xs):
    """Nothing in xs that could print as something symbolic"""
    for x in xs:
        if deep_sym(x) or \
           type(type(x).__str__) is types.FunctionType or \
           type(type(x).__repr__) is types.FunctionType:
            return False
    return True


def deep_conc(x):
    if type(x) in SYM:
        return concretize(x)
    if type(x) in (list, tuple, set, frozenset):
        return type(x)([deep_conc(y) for y in x])
    if type(x) is dict:
        return dict((deep_conc(k), deep_conc(v)) for k, v in x.items())
    return x


# -- dictionaries with symbolic keys ------------------------------------
class Key(object):
    """Holder of a symbolic key inside a dict or set (identity hash)."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


def sym_key(k):
    """Is there anything symbolic in this key?"""
    t = type(k)
    if t is SymStr:
        return type(mk(k.c)) is SymStr
    if t in SYM:
        return True
    if t is tuple or t is frozenset or isinstance(k, tuple):
        return any(sym_key(x) for x in k)
    return False


def plain(k):
    """k, its concrete parts as ordinary strings"""
    if type(k) is SymStr:
        return mk(k.c)
    if type(k) is tuple:
        return tuple(plain(x) for x in k)
    return k


def alike(x, k):
    """Could these be equal, as far as their shape goes?"""
    if isinstance(k, tuple):
        return isinstance(x, tuple) and len(x) == len(k) and \
            all(alike(a, b) for a, b in zip(x, k))
    if is_str(k):
        return is_str(x) and len(x) == len(k)
    if is_str(x) or isinstance(x, tuple):
        return False
    return True


def _find_key(d, k):
    """The key of d equal to k, or a 1-tuple-less miss marker."""
    k = plain(k)
    if not sym_key(k):
        if k in d:
            return True, k
        if id(d) in E.symdicts:
            for x in list(d):
                if type(x) is Key and alike(x.s, k) and x.s == k:
                    return True, x
        return False, None
    if type(k) is SymStr:
        if len(d) > 64:
            return _trie_find(d, k)
        for x in list(d):
            if type(x) is Key:
                if x.s == k:
                    return True, x
            elif isinstance(x, str) and len(x) == len(k) and k == x:
                return True, x
        return False, None
    if isinstance(k, SymInt):
        ints = [x for x in d if isinstance(x, int)]
        z3 = _z3()
        if len(ints) > 4:
            cs = charset.of_cps([x for x in ints if x >= 0])
            if not E.fork(cs.formula(k.e, z3), k.vs):
                return False, None
        for x in ints:
            if k == x:
                return True, x
        return False, None
    for x in list(d):
        y = x.s if type(x) is Key else x
        if alike(y, k) and y == k:
            return True, x
    return False, None


_tries = {}


def _trie_find(d, k):
    t = _tries.get(id(d))
    if t is None or t[0] is not d or t[2] != len(d):
        root = {}
        for x in d:
            if isinstance(x, str):
                n = root
                for ch in x:
                    n = n.setdefault(ch, {})
                n[''] = x
        t = _tries[id(d)] = (d, root, len(d))
    n = t[1]
    # keep only continuations of the right length
    rest = len(k)
    for i, ch in enumerate(k.c):
        c = E.concrete(ch)
        if c is None:
            opts = _alive(n, rest - i)
            if not opts:
                return False, None
            if not E.test(ch, charset.of_str(''.join(opts))):
                return False, None
            for o in opts:
                if E.test(ch, charset.single(o)):
                    c = o
                    break
        n = n.get(c)
        if n is None:
            return False, None
    if '' in n:
        return True, n['']
    return False, None


def _alive(n, depth):
    """Next characters from trie node n that lead to a key in exactly depth
    more characters."""
    memo = n.get(None)
    if memo is None:
        memo = {}
        n[None] = memo
    v = memo.get(depth)
    if v is None:
        v = memo[depth] = [
            ch for ch in sorted(x for x in n if x)
            if _has(n[ch], depth - 1)]
    return v


def _has(n, depth):
    if depth == 0:
        return '' in n
    return any(_has(m, depth - 1) for ch, m in n.items() if ch)


def _symdict(d):
    return id(d) in E.symdicts


def dict_set(d, k, v):
    k = plain(k)
    sk = sym_key(k)
    if sk or _symdict(d):
        hit, kk = _find_key(d, k)
        if hit:
            d[kk] = v
            return
        if sk:
            E.symdicts[id(d)] = d
            k = Key(k)
    d[k] = v


def _unkey(k):
    return k.s if type(k) is Key else k


def dict_method(d, name, a, k):
    if name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__') \
       and a and (sym_key(a[0]) or _symdict(d)):
        hit, kk = _find_key(d, a[0])
        if name == 'get':
            return d[kk] if hit else (a[1] if len(a) > 1 else None)
        if name == '__contains__':
            return hit
        if name == '__getitem__':
            if hit:
                return d[kk]
            raise KeyError(a[0])
        if name == 'pop':
            if hit:
                return d.pop(kk)
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if hit:
            return d[kk]
        v = a[1] if len(a) > 1 else None
        dict_set(d, a[0], v)
        return v
    if name == '__setitem__':
        return dict_set(d, a[0], a[1])
    if _symdict(d):
        if name == 'keys':
            return [_unkey(x) for x in d]
        if name == 'items':
            return [(_unkey(x), v) for x, v in d.items()]
        if name == 'copy':
            r = d.copy()
            E.symdicts[id(r)] = r
            return r
    if name == 'update' and a:
        if isinstance(a[0], dict):
            xs = [(_unkey(x), v) for x, v in a[0].items()]
        else:
            xs = [tuple(x) for x in a[0]]
        for x, v in xs + list(k.items()):
            dict_set(d, x, v)
        return None
    if name == 'popitem' and _symdict(d):
        x, v = d.popitem()
        return _unkey(x), v
    return getattr(d, name)(*a, **k)


def set_contains(s, k):
    return _find_key_set(s, k)


def _find_key_set(s, k):
    k = plain(k)
    if not sym_key(k):
        return _find_key(s, k)[0]
    if type(k) is SymStr and len(k) == 1 and id(s) not in E.symdicts:
        return E.test(k.c[0], charset.of_str(''.join(
            x for x in s if isinstance(x, str) and len(x) == 1)))
    return _find_key(s, k)[0]


# -- operators ----------------------------------------------------------
def contains(box, x):
    """x in box"""
    t = type(box)
    if isinstance(box, dict):
        if sym_key(x) or _symdict(box):
            return _find_key(box, x)[0]
        return x in box
    if t is set or t is frozenset:
        return _find_key_set(box, x)
    if t is SymStr:
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand")
        return box.find(x) >= 0
    if isinstance(box, str):
        if type(x) is SymStr:
            if len(x) == 1:
                return E.test(x.c[0], charset.chars(box))
            return SymStr(tuple(box)).find(x) >= 0
        return x in box
    if (t is tuple or t is list) and type(x) is SymStr and len(x) == 1:
        ok = ''.join(y for y in box if isinstance(y, str) and len(y) == 1)
        if ok and E.test(x.c[0], charset.of_str(ok)):
            return True
        return any(x == y for y in box if type(y) is SymStr)
    if isinstance(box, type({}.keys())) and (
            sym_key(x) or E.symdicts and any(type(y) is Key for y in box)):
        return any(alike(_unkey(y), x) and _unkey(y) == x for y in box)
    if isinstance(x, SymInt) and isinstance(box, range):
        if box.step == 1:
            return x >= box.start and x < box.stop
        return concretize(x) in box
    if isinstance(box, (bytes, bytearray)) and isinstance(x, SymInt):
        z3 = _z3()
        return E.fork(charset.of_cps(list(box)).formula(x.e, z3), x.vs)
    return x in box


def getitem(o, k):
    if isinstance(o, dict) and (sym_key(k) or id(o) in E.symdicts):
        hit, kk = _find_key(o, k)
        if hit:
            return o[kk]
        make = getattr(o, 'default_factory', None)
        if make is not None:
            v = call(make)
            dict_set(o, k, v)
            return v
        if hasattr(type(o), '__missing__') and \
           not hasattr(o, 'default_factory'):
            return type(o).__missing__(o, k)
        raise KeyError(k)
    if isinstance(k, SymInt) and type(o) in (str, tuple, list):
        for i in range(len(o)):
            if k == i:
                return o[i]
        for i in range(1, len(o) + 1):
            if k == -i:
                return o[-i]
        raise IndexError('index out of range')
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict):
        dict_set(o, k, v)
    else:
        o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and (sym_key(k) or id(o) in E.symdicts):
        hit, kk = _find_key(o, k)
        if not hit:
            raise KeyError(k)
        del o[kk]
    else:
        del o[k]


def to_s(x):
    """str(x)"""
    if type(x) is SymStr:
        return x
    if isinstance(x, SymInt):
        return x.to_str()
    if type(x) in (list, tuple, dict, set) and deep_sym(x):
        return to_repr(x)
    f = type(x).__str__
    if f is object.__str__:
        f = type(x).__repr__
    if type(f) is types.FunctionType:
        return f(x)
    return str(x)


def to_repr(x):
    if type(x) is SymStr:
        # quotes and escapes depend on content
        return repr(concretize(x))
    if isinstance(x, SymInt):
        return x.to_str()
    if type(x) in (list, tuple, dict, set) and deep_sym(x):
        return repr(deep_conc(x))
    f = type(x).__repr__
    if type(f) is types.FunctionType:
        return f(x)
    return repr(x)


def fmt_value(x, conv, spec):
    if conv == ord('r'):
        x = to_repr(x)
    elif conv == ord('s'):
        x = to_s(x)
    elif conv == ord('a'):
        x = ascii(deep_conc(x))
    if type(spec) is SymStr:
        spec = concretize(spec)
    if not spec:
        return to_s(x) if type(x) in SYM or \
            type(x).__format__ is object.__format__ else format(x)
    if type(x) is SymStr:
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?', spec,
                         re.S)
        if not m:
            return format(concretize(x), spec)
        fill, al, w, prec = m.groups()
        if prec is not None:
            x = x[:int(prec)]
        w = int(w or 0)
        pad = w - len(x)
        if pad <= 0:
            return x
        fill = fill or ' '
        al = al or '<'
        if al == '<':
            return x + fill * pad
        if al == '>':
            return fill * pad + x
        return fill * (pad // 2) + x + fill * (pad - pad // 2)
    if isinstance(x, SymInt):
        return fmt_int(x, spec)
    return format(x, spec)


def hexdig(e, vs, upper):
    z3 = _z3()
    base = 55 if upper else 87
    return SymG(z3.If(e < 10, e + 48, e + base), vs,
                charset.of_str('0123456789ABCDEF' if upper
                               else '0123456789abcdef'))


def fmt_int(x, spec):
    m = re.fullmatch(r'0(\d)([xX])', spec)
    if m and int(m.group(1)) == 2 and isinstance(x, ByteOf):
        up = m.group(2) == 'X'
        return mk((hexdig(x.e / 16, x.vs, up), hexdig(x.e % 16, x.vs, up)))
    if spec in ('d', ''):
        return x.to_str()
    return format(concretize(x), spec)


def fmt(parts):
    """f-string: parts are str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is tuple:
            p = fmt_value(*p)
        out.append(p)
    return join('', out)


def str_format(s, a, k):
    s = concretize(s)
    if printable(a) and printable(k.values()):
        return s.format(*a, **k)
    out = []
    auto = 0
    f = _string.Formatter()
    for lit, name, spec, conv in f.parse(s):
        out.append(lit)
        if name is None:
            continue
        if name == '' or name[0] in '.[':
            name = str(auto) + name
            auto += 1
        if spec and '{' in spec:
            spec = str_format(spec, a, k)
        v, _ = f.get_field(name, a, k)
        out.append(fmt_value(v, ord(conv) if conv else -1, spec))
    return join('', out)


_pct = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?'
                  r'[hlL]?([diouxXeEfFgGcrsa%])')


def mod(a, b):
    if not is_str(a):
        return a % b
    args = b if type(b) is tuple else (b,)
    if type(a) is not SymStr and printable(args):
        return a % b
    a = concretize(a)
    out = []
    i = 0
    n = 0
    for m in _pct.finditer(a):
        out.append(a[i:m.start()])
        i = m.end()
        name, flags, w, prec, t = m.groups()
        if t == '%':
            out.append('%')
            continue
        if name is not None:
            v = getitem(b, name)
        else:
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[n]
            n += 1
        if t == 's':
            v = to_s(v)
        elif t == 'r':
            v = to_repr(v)
        elif t in 'di' and isinstance(v, SymInt):
            v = v.to_str()
        elif t in 'xX' and isinstance(v, ByteOf) and flags == '0' and \
                w == '2':
            out.append(fmt_int(v, '02' + t))
            continue
        elif t == 'c' and type(v) is SymStr:
            pass
        else:
            out.append(('%' + flags + (w or '') +
                        ('.' + prec if prec else '') + t) %
                       (deep_conc(v),))
            continue
        if prec:
            v = v[:int(prec)]
        w = int(w or 0)
        if w > len(v):
            v = v + ' ' * (w - len(v)) if '-' in flags else \
                ' ' * (w - len(v)) + v
        out.append(v)
    if type(b) is tuple and n < len(args):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    out.append(a[i:])
    return join('', out)


# -- models of functions ------------------------------------------------
_SAFE = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
         '0123456789_.-~')


def m_quote(string, safe='/', encoding=None, errors=None):
    if type(string) is SymStr:
        if not len(string):
            return string
        string = string.encode(encoding or 'utf-8', errors or 'strict')
    elif type(string) is SymBytes:
        if encoding is not None or errors is not None:
            raise TypeError("quote() doesn't support 'encoding' for bytes")
    else:
        return urllib.parse.quote(string, concretize(safe), encoding,
                                  errors)
    safe = concretize(safe)
    if isinstance(safe, str):
        safe = safe.encode('ascii', 'ignore')
    ok = charset.of_cps([ord(c) for c in _SAFE] +
                        [b for b in safe if b < 128])
    z3 = _z3()
    out = []
    for b in string:
        if type(b) is int:
            out.extend(chr(b) if b in ok else '%%%02X' % b)
            continue
        if not isinstance(b, SymInt):
            b = ByteOf(b.e, b.vs, None)
        if isinstance(b, ByteOf) and b.ch is not None:
            if E.test(b.ch, ok):
                out.append(b.ch)
                continue
            c = E.concrete(b.ch)
            if c is not None:
                out.extend('%%%02X' % ord(c))
                continue
            e, vs = E.term(b.ch)
        elif isinstance(b, ByteOf):
            e, vs = b.e, b.vs       # a multi-byte unit: >= 0x80
        else:
            if E.fork(ok.formula(b.e, z3), b.vs):
                out.append(SymG(b.e, b.vs, ok))
                continue
            e, vs = b.e, b.vs
        out.append('%')
        out.append(hexdig(e / 16, vs, True))
        out.append(hexdig(e % 16, vs, True))
    return mk(out)


def m_quote_plus(string, safe='', encoding=None, errors=None):
    if is_sym(string):
        r = m_quote(string, safe + ' ', encoding, errors)
        return r.replace(' ', '+')
    return urllib.parse.quote_plus(string, safe, encoding, errors)


def m_len(x):
    if id(x) in E.symdicts:
        return len(x)
    return len(x)


def m_int(x=0, base=None):
    if type(x) is SymStr:
        return to_int(x, 10 if base is None else concretize(base))
    if isinstance(x, SymInt):
        return x
    return int(x) if base is None else int(x, concretize(base))


def m_str(*a, **k):
    if len(a) == 1 and not k:
        return to_s(a[0])
    if a and type(a[0]) in SYM:
        a = (concretize(a[0]),) + a[1:]
    return str(*a, **k)


def _cls(c):
    return tuple(_cls(x) for x in c) if isinstance(c, tuple) else c


def m_isinstance(x, c):
    t = type(x)
    if t in SYM:
        cs = c if isinstance(c, tuple) else (c,)
        for y in cs:
            if isinstance(y, tuple):
                if m_isinstance(x, y):
                    return True
            elif t is SymStr and issubclass(str, y):
                return True
            elif issubclass(t, SymInt) and issubclass(int, y):
                return True
            elif t is SymBytes and issubclass(bytes, y):
                return True
        return False
    return isinstance(x, c)


def m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymStr:
            return str
        if issubclass(t, SymInt):
            return int
        if t is SymBytes:
            return bytes
    return type(*a)


def m_getattr(o, name, *d):
    if type(name) is SymStr:
        name = concretize(name)
    if (type(o) in SYM or isinstance(o, str)) and hasattr(str, name) and \
       callable(getattr(str, name)):
        return lambda *a, **k: callm(o, name, *a, **k)
    if type(o) is dict or isinstance(o, re.Pattern):
        v = getattr(o, name, *d)
        if callable(v):
            return lambda *a, **k: callm(o, name, *a, **k)
        return v
    return getattr(o, name, *d)


def m_hasattr(o, name):
    return hasattr(o, concretize(name))


def m_setattr(o, name, v):
    return setattr(o, concretize(name), v)


def m_print(*a, **k):
    """print: recorded, not written."""
    if k.get('file') is not None and not isinstance(k['file'], Sink):
        return print(*deep_conc(list(a)), **k)
    sep = k.get('sep', ' ')
    s = join(' ' if sep is None else sep, [to_s(x) for x in a])
    end = k.get('end', '\n')
    s = s + ('\n' if end is None else end)
    if isinstance(k.get('file'), Sink):
        k['file'].write(s)
    else:
        E.out.append(s)


class Sink(object):
    """Text file that records what is written."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def close(self):
        pass

    def getvalue(self):
        return join('', self.parts)


class JsonText(object):
    """json.dumps(obj, ...) for an object with symbolic leaves: an opaque
    text that json.loads gives back (the documented round trip)."""

    def __init__(self, obj):
        self.obj = obj


def _jcopy(x):
    if isinstance(x, dict):
        return dict((_unkey(k), _jcopy(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [_jcopy(v) for v in x]
    if x is None or isinstance(x, (str, int, float)) or type(x) in SYM:
        return x
    raise TypeError('Object of type %s is not JSON serializable' %
                    type(x).__name__)


def m_dumps(obj, *a, **k):
    return JsonText(_jcopy(obj))


def m_dump(obj, fp, *a, **k):
    fp.write(JsonText(_jcopy(obj)))


def m_loads(s, *a, **k):
    if type(s) is JsonText:
        return s.obj
    return _json.loads(concretize(s), *a, **k)


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_minmax(f, name):
    def mm(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any_sym(xs):
            return f(*a, **k)
        key = cb(k.get('key')) or (lambda x: x)
        if not xs:
            return k['default']
        best = xs[0]
        for x in xs[1:]:
            if (key(x) < key(best)) if name == 'min' else \
               (key(x) > key(best)):
                best = x
        return best
    return mm


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def m_unescape(s):
    if type(s) is not SymStr:
        return _html.unescape(s)
    from . import xform
    return xform.stdlib('html').unescape(s)


def m_escape(s, quote=True):
    if type(s) is not SymStr:
        return _html.escape(s, quote)
    from . import xform
    return xform.stdlib('html').escape(s, quote)


def m_compile(p, flags=0):
    p = concretize(p) if type(p) is SymStr else p
    return re.compile(p, flags)


def m_range(*a):
    return range(*[concretize(x) for x in a])


def m_set(*a):
    if not a:
        return set()
    s = set()
    xs = list(it(a[0]))
    if not any(sym_key(x) for x in xs):
        return set(xs)
    for x in xs:
        set_add(s, x)
    return s


def set_add(s, x):
    x = plain(x)
    sk = sym_key(x)
    if sk or id(s) in E.symdicts:
        if _find_key(s, x)[0]:
            return
        if sk:
            E.symdicts[id(s)] = s
            x = Key(x)
    s.add(x)


def it(x):
    """x, iterated over by the code under test"""
    if E.symdicts and id(x) in E.symdicts:
        return [_unkey(y) for y in x]
    if E.symdicts and type(x) in _VIEWS:
        r = [_unkey(y) if type(y) is Key else
             (_unkey(y[0]), y[1]) if type(y) is tuple and len(y) == 2 and
             type(y[0]) is Key else y for y in x]
        return r
    return x


_VIEWS = (type({}.keys()), type({}.items()))


def mkdict(*parts):
    """A dictionary display: (key, value) pairs, or (None, other, 1)"""
    d = {}
    for p in parts:
        if len(p) == 3:
            for x, v in p[1].items():
                dict_set(d, _unkey(x), v)
        else:
            dict_set(d, p[0], p[1])
    return d


def symset(x):
    return E.symdicts and id(x) in E.symdicts and \
        isinstance(x, (set, dict)) or type(x) in _VIEWS and \
        any(type(y) is Key for y in x)


def bitop(op, a, b):
    """& | ^ and - of sets"""
    if not symset(a) and not symset(b):
        return getattr(operator, op)(a, b)
    if isinstance(a, dict) and op == 'or_':
        r = m_dict(a)
        dict_method(r, 'update', (b,), {})
        return r
    xs, ys = list(it(a)), list(it(b))
    if op == 'or_':
        return m_set(xs + ys)
    r = [x for x in xs if _find_key(b, x)[0] == (op == 'and_')]
    if op == 'xor':
        r += [y for y in ys if not _find_key(a, y)[0]]
    return m_set(r)


def set_method(o, name, a):
    other = m_set(a[0]) if a and not isinstance(a[0], (set, frozenset)) \
        else a[0]
    if name in ('issubset', '__le__'):
        return all(_find_key(other, x)[0] for x in it(o))
    if name in ('issuperset', '__ge__'):
        return all(_find_key(o, x)[0] for x in it(other))
    if name == 'isdisjoint':
        return not any(_find_key(other, x)[0] for x in it(o))
    return bitop({'intersection': 'and_', 'union': 'or_',
                  'difference': 'sub', 'symmetric_difference': 'xor'}[name],
                 o, other)


SETM = {'issubset', 'issuperset', 'isdisjoint', 'intersection', 'union',
        'difference', 'symmetric_difference', '__le__', '__ge__'}


def mkset(xs):
    return m_set(xs)


# -- functools.lru_cache ------------------------------------------------
SCALAR = (str, int, bool, type(None), SymStr, SymInt)
NONE = object()


def cached(f, a, k):
    """A call of a function that remembers its results: what it remembers
    is a list of (arguments, result), searched by symbolic equality."""
    ent = E.symdicts.get(('lru', id(f)))
    if ent is None:
        ent = E.symdicts[('lru', id(f))] = [f]
    par = f.cache_parameters()
    key = tuple(plain(x) for x in a) + tuple(
        (i, plain(x)) for i, x in k.items())
    if par['typed']:
        key += tuple(m_type(x) for x in key)
    size = par['maxsize']
    if size == 0:
        return call(f.__wrapped__, *a, **k)
    simple = all(type(x) in SCALAR for x in a) and not k
    if not sym_key(key):
        hash(key)
    new = NONE
    if simple and sym_key(key):
        # nothing but strings and numbers: the function is run first, and
        # what is remembered matters only where it differs
        new = call(f.__wrapped__, *a, **k)
    for n in range(1, len(ent)):
        x, r = ent[n]
        if new is not NONE and type(new) in (str, int, bool, type(None)) \
           and type(r) is type(new) and r == new:
            continue
        if alike(x, key) and x == key:
            ent.append(ent.pop(n))
            return r
    if new is NONE:
        new = call(f.__wrapped__, *a, **k)
    ent.append((key, new))
    if size is not None and len(ent) > size + 1:
        del ent[1]
    return new


LRU = type(functools.lru_cache(lambda: 0))


def cb(f):
    """A callable handed to library code, which will call it itself"""
    if not callable(f):
        return f
    if isinstance(f, (types.MethodDescriptorType, LRU, functools.partial,
                      operator.itemgetter, operator.methodcaller,
                      types.BuiltinMethodType, types.MethodWrapperType)):
        return lambda *a, **k: call(f, *a, **k)
    try:
        if f in MODELS:
            return MODELS[f]
    except TypeError:
        pass
    return f


TAKES_ITERABLE = {list, tuple, frozenset, enumerate, iter, any, all, zip,
                  reversed}
# library code in C that does nothing but compare and call
_NATIVE = {'_operator', '_bisect', '_heapq', '_functools', 'itertools'}
_OPS = {'and_': lambda a, b: bitop('and_', a, b),
        'or_': lambda a, b: bitop('or_', a, b),
        'xor': lambda a, b: bitop('xor', a, b),
        'contains': lambda b, x: contains(b, x),
        'getitem': lambda o, k: getitem(o, k),
        'setitem': lambda o, k, v: setitem(o, k, v),
        'delitem': lambda o, k: delitem(o, k),
        'mod': lambda a, b: mod(a, b), 'imod': lambda a, b: mod(a, b)}


PASS = {iter, next, any, all, id, callable}
TAKES_CALLABLE = (
    itertools.takewhile, itertools.dropwhile, itertools.filterfalse,
    itertools.starmap, itertools.groupby, itertools.accumulate,
    functools.reduce)


def m_dict(*a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            for x, v in a[0].items():
                dict_set(d, _unkey(x), v)
        else:
            for x, v in a[0]:
                dict_set(d, x, v)
    d.update(k)
    return d


def m_ascii(x):
    return ascii(deep_conc(x))


def m_bool(x=False):
    return True if x else False


def m_sorted(xs, **k):
    if k.get('key') is not None:
        k['key'] = cb(k['key'])
    return sorted(list(it(xs)), **k)


def m_category(ch):
    """unicodedata.category as a pair of mapped characters"""
    import unicodedata
    if type(ch) is not SymStr:
        return unicodedata.category(ch)
    m = categories()
    return mk([map_char(ch.c[0], m[0]), map_char(ch.c[0], m[1])])


_cats = None


def categories():
    global _cats
    if _cats is None:
        import unicodedata
        d = {}
        for c in range(charset.MAXCP + 1):
            d.setdefault(unicodedata.category(chr(c)), []).append(c)
        d = [(k, charset.of_cps(v)) for k, v in sorted(d.items())]
        _cats = []
        for i in (0, 1):
            e = {}
            for k, v in d:
                e[k[i]] = e[k[i]] | v if k[i] in e else v
            _cats.append(PMap([(v, ord(k)) for k, v in sorted(e.items())]))
    return _cats


import unicodedata  # noqa

MODELS = {
    len: m_len, int: m_int, str: m_str, isinstance: m_isinstance,
    type: m_type, getattr: m_getattr, hasattr: m_hasattr,
    setattr: m_setattr, print: m_print, ord: sym_ord, chr: sym_chr,
    min: m_minmax(min, 'min'), max: m_minmax(max, 'max'), sum: m_sum,
    map: m_map, filter: m_filter, set: m_set, dict: m_dict, ascii: m_ascii,
    repr: to_repr, range: m_range, bool: m_bool, sorted: m_sorted,
    format: lambda x, s='': fmt_value(x, -1, s),
    re.compile: m_compile, re.search: sre.search, re.match: sre.match,
    re.fullmatch: sre.fullmatch, re.sub: sre.sub, re.subn: sre.subn,
    re.split: sre.split, re.findall: sre.findall,
    re.finditer: sre.finditer, re.escape: sre.escape,
    _html.unescape: m_unescape, _html.escape: m_escape,
    urllib.parse.quote: m_quote, urllib.parse.quote_plus: m_quote_plus,
    urllib.parse.quote_from_bytes: m_quote,
    _json.dumps: m_dumps, _json.dump: m_dump, _json.loads: m_loads,
    unicodedata.category: m_category,
}

# names through which the code under test is intercepted (set by runners)
PATCH = {}

_PAT = {'search': sre.search, 'match': sre.match,
        'fullmatch': sre.fullmatch, 'finditer': sre.finditer,
        'findall': sre.findall}
_STR_T = str


def call(f, *a, **k):
    E.work += 1
    try:
        h = MODELS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is type or t is types.BuiltinMethodType:
        if a and f in TAKES_CALLABLE:
            r = f(*[cb(x) for x in a],
                  **dict((i, cb(x)) for i, x in k.items()))
            return r
        if E.symdicts and a and f in TAKES_ITERABLE:
            a = tuple(it(x) for x in a)
        if t is not type and f.__module__ in _NATIVE:
            return _OPS.get(f.__name__, f)(*a, **k) \
                if f.__module__ == '_operator' else f(*a, **k)
    if t is functools.partial:
        k = dict(f.keywords, **k) if f.keywords else k
        return call(f.func, *f.args, *a, **k)
    if t is types.MethodWrapperType:
        return callm(f.__self__, f.__name__, *a, **k)
    if t is operator.itemgetter:
        ks = f.__reduce__()[1]
        r = tuple(getitem(a[0], x) for x in ks)
        return r if len(ks) > 1 else r[0]
    if t is operator.methodcaller:
        x = f.__reduce__()
        if x[0] is operator.methodcaller:
            return callm(a[0], *x[1])
    if t is types.MethodType and type(f.__func__) is LRU:
        return cached(f.__func__, (f.__self__,) + a, k)
    if t is types.FunctionType or t is types.MethodType or t is type:
        if t is types.FunctionType and (any_sym(a, k)) and \
           not f.__globals__.get('__symx__'):
            g = foreign(f)
            if g is not None:
                return g(*a, **k)
        return f(*a, **k)
    if t is LRU:
        return cached(f, a, k)
    if t is types.BuiltinMethodType:
        o = f.__self__
        if o is not None and not isinstance(o, types.ModuleType):
            return callm(o, f.__name__, *a, **k)
        if f in PASS:
            # only hand on what they get
            return f(*a, **k)
        if any_sym(a, k):
            return f(*[deep_conc(x) for x in a],
                     **dict((i, deep_conc(x)) for i, x in k.items()))
    if t is types.MethodDescriptorType and a:
        # str.strip(x) and the like
        return callm(a[0], f.__name__, *a[1:], **k)
    return f(*a, **k)


def foreign(f):
    """Pure-Python library function with symbolic arguments: execute its
    source symbolically as well."""
    mod = f.__module__ or ''
    if mod.split('.')[0] in ('sym', 'checks', 'ref', '__main__', 'harness'):
        return None
    from . import xform
    return xform.foreign(f)


def callm(o, name, *a, **k):
    E.work += 1
    t = type(o)
    if name == '__contains__' and (t is str or t is SymStr):
        return contains(o, *a)
    if t is str:
        if name == 'join':
            if a and type(a[0]) is not str:
                items = list(a[0])
                if any_sym(items):
                    return join(o, items)
                return o.join(items)
        elif name == 'format':
            return str_format(o, a, k)
        elif name == 'format_map':
            return str_format(o, (), a[0])
        if any_sym(a, k) or (a and type(a[0]) is tuple and any_sym(a[0])):
            return getattr(SymStr(tuple(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is SymStr:
        return getattr(o, name)(*a, **k)
    if t is dict or isinstance(o, dict) and \
            isinstance(getattr(o, name, None), types.BuiltinMethodType):
        return dict_method(o, name, a, k)
    if t is set:
        if name == 'add':
            set_add(o, a[0])
            return None
        if name in ('discard', 'remove') and (
                sym_key(a[0]) or id(o) in E.symdicts):
            hit, kk = _find_key(o, a[0])
            if hit:
                o.remove(kk)
            elif name == 'remove':
                raise KeyError(a[0])
            return None
        if name == 'update' and not k:
            for xs in a:
                for x in it(xs):
                    set_add(o, x)
            return None
        if name in SETM and len(a) == 1 and (
                symset(o) or symset(a[0]) or type(a[0]) is SymStr or
                type(a[0]) in (list, tuple) and any_sym(a[0])):
            return set_method(o, name, a)
        if name == 'pop' and symset(o):
            return _unkey(o.pop())
        if name == 'copy' and symset(o):
            return m_set(o)
        return getattr(o, name)(*a, **k)
    if t is frozenset and name in SETM and len(a) == 1 and (
            symset(a[0]) or type(a[0]) is SymStr or
            type(a[0]) in (list, tuple) and any_sym(a[0])):
        return set_method(o, name, a)
    if t is re.Pattern:
        f = _PAT.get(name)
        if f is not None:
            # Pattern.search(string, pos, endpos)
            return f(o, a[0], 0, *a[1:]) if not k else \
                f(o, *(a[:1]), **k)
        if name in ('sub', 'subn'):
            return getattr(sre, name)(o, *a, **k)
        if name == 'split':
            return sre.split(o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is types.ModuleType:
        return call(getattr(o, name), *a, **k)
    if isinstance(o, str) and t is not str:
        return getattr(o, name)(*a, **k)
    if t is list or t is tuple:
        return getattr(o, name)(*a, **k)
    f = getattr(o, name)
    if type(f) is types.MethodType or type(f) is types.FunctionType:
        if type(f) is types.FunctionType or type(f.__func__) is LRU:
            return call(f, *a, **k)
        return f(*a, **k)
    if t is io.StringIO or isinstance(o, (Sink,)):
        return f(*a, **k)
    if type(f) is types.MethodDescriptorType or \
       type(f) is types.BuiltinMethodType and \
       isinstance(f.__self__, types.ModuleType) or f in _model_set(f):
        return call(f, *a, **k)
    return f(*a, **k)


def _model_set(f):
    try:
        return (f,) if f in MODELS else ()
    except TypeError:
        return ()


class StringIO(Sink):
    """io.StringIO stand-in able to hold symbolic text."""

    def __init__(self, initial=''):
        Sink.__init__(self)
        if len(initial):
            self.parts.append(initial)


MODELS[io.StringIO] = StringIO


class S(object):
    """Namespace the transformed code sees as __S."""
    call = staticmethod(call)
    callm = staticmethod(callm)
    contains = staticmethod(contains)
    getitem = staticmethod(getitem)
    it = staticmethod(it)
    mkdict = staticmethod(mkdict)
    mkset = staticmethod(mkset)
    bitop = staticmethod(bitop)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    mod = staticmethod(mod)
    fmt = staticmethod(fmt)
    tick = staticmethod(sre.tick)
