"""The work for a text grows at most with the square of its length."""
import re

from lib import *
from sym import sre

BOUNDS = ('steps counted for texts with one or two parts repeated 10 and 40 '
          'times: parts of 1 arbitrary character, of 2 (thorough: 3) over '
          'the markup alphabet, and of about 60 kinds with an arbitrary '
          'character in them, after and before texts of about 60 kinds; every repetition '
          'of every compiled pattern with a text of 3 (thorough: 5) '
          'arbitrary characters over and over; a '
          'step is a branch of a regular expression, a call or a round of '
          'a loop; at most 22 times the steps for 4 times the text')
OUTSIDE = ('texts of another shape; the constant factor; work inside one '
           'built-in operation other than a regular expression')

FACTOR = 22
K = 10


def run(T, make, smart=False):
    po = {'smart': True} if smart else {}

    def f(n):
        s = make(n)
        T.pkg.HtmlRenderer().render(T.pkg.Parser(po).parse(s))
    T.docs.append(make(3))
    a, b = T.growth(f, K, 4 * K, FACTOR)
    T.require(a > 0 and b > 0, 'work')


def pump(T, pre, w, post):
    """something over and over"""
    a = doc(T, pre)
    x = doc(T, w)
    b = doc(T, post)
    run(T, lambda n: a + x * n + b)


def smart(T, pre, w, post):
    a = doc(T, pre)
    x = doc(T, w)
    b = doc(T, post)
    run(T, lambda n: a + x * n + b, True)


def two(T, w, mid, v, post):
    """one thing over and over, and then another"""
    x = doc(T, w)
    m = doc(T, mid)
    y = doc(T, v)
    b = doc(T, post)
    run(T, lambda n: x * n + m + y * n + b)


PRE = ['', '[', '![', '[a](', '[a](<', '[a](b "', '[a](b (', "[a](b '", '<',
       '<a', '<a b=', '<a b="', '</a', '<!--', '<?', '<!A', '<![CDATA[', '&',
       '&#', '`', '*', '**a', '_', '[a]: ', '[a]: b "', '[', '> ', '- ',
       '# ', '    ', '```\n', '~~~', '<div', '<pre>', '|', 'a\n', '<a:', '<a@',
       '<a@b', '\\', '[a][', 'a', '- a\n', '1. ', '[a]: <', "[a]: b '",
       '<script>\n', '<a b', '<a ', '***', '- - ', '> > ', 'b <!--',
       'b <?', 'b <!A ', 'b <![CDATA[', '```\n```', '~~~\n~~~', 'b\n==',
       'b\n--', 'b <a b=c', 'b </a', '- -', '* *', '#', '# a #', '_ _']
W = ['*a', 'a*', '_a', '**a ', 'a** ', '`a', '``a`', '[a', 'a]', '[a](', '[]',
     '![', '](', '[a]: ', '<a', '<a b', ' b="', ' b=""', " b=''", ' b=c', 'a ',
     ' \n', 'a\n', '- ', '> ', '1. ', '# a\n', '- a\n', '> a\n', '\\', '\\[',
     '&a', '&#1', '&amp;', '<!-', '--', '-', '..', '"a', "'a ", '"', '(', ')',
     '((', '()', 'a.', '.a', '<?', '?', ']]', '<b>', '</b>', '\t', 'a-', '=',
     '***', '* * ', '```\n', '~', '\n\n', '\\\n', '  \n', '[a]', '[a][', '!',
     '<http:', 'a@', '@a.', '``', '`\n', '<![', '[a]:b\n', "[a]:b '\n",
     '[a]: b "c"\n', 'a--', '[a](b) ', '<div>\n', '</div>\n\n', '>', '<>']


def patterns(T):
    """the regular expressions of the package, by name"""
    out = []
    for m in sorted(T.mods):
        d = T.mods[m].__dict__
        for k in sorted(d):
            v = d[k]
            vs = v if type(v) in (list, tuple) else [v]
            for i, x in enumerate(vs):
                if type(x) is re.Pattern and x not in [y for _, y in out]:
                    out.append((m + '.' + k, x))
    return out


def regex(T, n, part, parts):
    """No pattern takes more than the square of the time, on any text that
    repeats n arbitrary characters where it repeats something."""
    ps = patterns(T)
    i = T.choose((len(ps) - part + parts - 1) // parts) * parts + part
    T.assume(i < len(ps))
    p = ps[i][1]
    ls = sre.loops(p)
    if not ls:
        T.require(True, 'no loops')
        return
    pre = ls[T.choose(len(ls))]
    a = ''
    for cs in pre[:40]:
        a = a + T.hole(1, cs)
    x = T.hole(n)
    b = T.hole(1)
    T.docs += [ps[i][0], p.pattern, a + x * 3 + b]
    T.growth(lambda k: p.search(a + x * k + b), K, 4 * K, FACTOR)


def jobs(tier):
    q = tier == 'quick'
    m = '*_`[]()<!\\&\n -a"'
    out = []
    for i in range(8):
        out.append((regex, 1, i, 8))
        out.append((regex, 2, i, 8))
        out.append((regex, 3, i, 8))
        if not q:
            out.append((regex, 4, i, 8))
            out.append((regex, 5, i, 8))
    for i, p in enumerate(PRE):
        out.append((pump, [p], [1], ['']))
        out.append((pump, [p], [W], ['']))
        out.append((pump, [p], [(2, m[i % 3::3])], ['']))
        if not q:
            out.append((pump, [p], [1], [['a', '>', ')', ']', '"', '\n',
                                          'b c']]))
            out.append((pump, [p], [(2, m)], ['']))
            out.append((pump, [p], [(3, m[i % 3::3])], ['']))
            for j, w in enumerate(W):
                if (i + j) % 4 == 0:
                    out.append((pump, [p], [w, 1], ['']))
                if (i + j) % 4 == 2:
                    out.append((pump, [p], [1, w], ['', 1]))
    for i, w in enumerate(W):
        out.append((pump, [''], [w, 1], ['']))
        out.append((pump, [PRE], [w], [['>', ')', ']', 'a'][i % 4]]))
        out.append((two, [w], [''], [W[i % 2::2] if q else W], ['']))
        if q and i % 3 == 0 or not q:
            out.append((smart, [''], [w, 1], ['']))
            out.append((two, [w], [''], [1], ['']))
        if not q:
            out.append((pump, [PRE], [w], ['', 1]))
            out.append((two, [w], [1], [W], ['']))
    return out
