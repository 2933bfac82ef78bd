"""Smart punctuation changes quotes, dashes and dots in texts, only."""
from lib import *

BOUNDS = ('every text of at most 3 characters of any kind (thorough: 4), 6 '
          '(thorough: 8) over quotes, letters and delimiters, 1 or 2 '
          'arbitrary characters around quotes, dashes and dots in about 45 '
          'contexts; runs of 1 to 40 dashes (thorough: 120) and dots '
          'between arbitrary characters')
BOUNDS += OF_INLINES % '10' + \
    OF_MANY
OUTSIDE = ('longer texts; what the curly quotes ought to be in a language '
           'other than English')

EN, EM, DOTS = '\u2013', '\u2014', '\u2026'
LQ, RQ, LS, RS = '\u201c', '\u201d', '\u2018', '\u2019'
NEW = EN + EM + DOTS + LQ + RQ + LS + RS


def undo(h):
    return h.replace(DOTS, '...').replace(EM, '---').replace(EN, '--').\
        replace(LQ, '&quot;').replace(RQ, '&quot;').replace(LS, "'").\
        replace(RS, "'")


def only(T, *ps):
    """Nothing but quotes, dashes and dots differs from the HTML without the
    option."""
    s = doc(T, ps)
    for c in NEW:
        T.assume(c not in s)
    T.eq(undo(html(T, s, {'smart': True})), html(T, s), 'the HTML but for '
         'its punctuation')


def off(T, *ps):
    """Texts without quotes, double dashes and three dots stay the same, and
    all of them do without the option."""
    s = doc(T, ps)
    a = html(T, s)
    T.eq(html(T, s, {'smart': False}), a, 'smart: False')
    if '"' not in s and "'" not in s and '--' not in s and '...' not in s:
        if '&' not in s and '\\' not in s:
            T.eq(html(T, s, {'smart': True}), a, 'nothing to change')


def dashes(n):
    if n == 1:
        return '-'
    if n % 3 == 0:
        return EM * (n // 3)
    if n % 2 == 0:
        return EN * (n // 2)
    if n % 3 == 2:
        return EM * (n // 3) + EN
    return EM * ((n - 4) // 3) + EN * 2


def run(T, lo, hi):
    n = lo + T.choose(hi - lo + 1)
    x = T.hole(1, cs_not('-\n\r\0*_`[]<>&"\'!\\#+.=: \t'))
    y = T.hole(1, cs_not('-\n\r\0*_`[]<>&"\'!\\.(: \t'))
    e = 'ab%s\n' % ('-' * n)
    s = 'a' + x + '-' * n + y + 'b'
    w = '<p>a' + x + dashes(n) + y + 'b</p>\n'
    T.eq(html(T, s, {'smart': True}), w, 'dashes')
    T.eq(html(T, s), '<p>a' + x + '-' * n + y + 'b</p>\n', 'dashes')
    # as wide as they were, near enough
    d = dashes(n)
    T.require(n == 1 or 3 * d.count(EM) + 2 * d.count(EN) == n, 'width')


def dots(T, n):
    x = T.hole(1, cs_not('.\n\r\0*_`[]<>&"\'!\\#+-=: \t'))
    y = T.hole(1, cs_not('.\n\r\0*_`[]<>&"\'!\\-(: \t'))
    s = 'a' + x + '.' * n + y + 'b'
    w = '<p>a' + x + DOTS * (n // 3) + '.' * (n % 3) + y + 'b</p>\n'
    T.eq(html(T, s, {'smart': True}), w, 'dots')


def quoted(T, q, how):
    """words in quotes, and apostrophes"""
    w = cs_not('\n\r\0*_`[]<>&"\'!\\-.(:#+= \t0123456789)~|/')
    x = T.hole(1, w)
    T.assume(x not in '\u2010\u2011' and x.strip() == x)
    L, R = (LQ, RQ) if q == '"' else (LS, RS)
    a, b = T.pick(('', ''), ('b ', ' c'), ('(', ')'), ('b\n', '\nc'),
                  ('*', '*'), ('> ', ''), ('', '.'), ('', '!'))
    pre, post = {'': ('<p>', '</p>\n'), 'b ': ('<p>b ', ' c</p>\n'),
                 '(': ('<p>(', ')</p>\n'),
                 'b\n': ('<p>b\n', '\nc</p>\n'),
                 '*': ('<p><em>', '</em></p>\n'),
                 '> ': ('<blockquote>\n<p>', '</p>\n</blockquote>\n')}[a]
    if a == '' and b:
        post = b + '</p>\n'
    if how == 0:
        s, t = q + 'd' + x + 'e' + q, L + 'd' + x + 'e' + R
    elif how == 1:
        s, t = q + 'd e f' + q, L + 'd e f' + R
    elif how == 2:
        o = "'" if q == '"' else '"'
        l, r = (LS, RS) if q == '"' else (LQ, RQ)
        s = q + 'd ' + o + 'e' + x + 'f' + o + ' g' + q
        t = L + 'd ' + l + 'e' + x + 'f' + r + ' g' + R
    elif how == 3:
        s = q + 'd' + q + ' ' + q + 'e' + x + 'f' + q
        t = L + 'd' + R + ' ' + L + 'e' + x + 'f' + R
    elif how == 4:
        s, t = q + 'i __t__' + q, \
            L + 'i <strong>t</strong>' + R
    elif how == 5:
        s, t = q + 'c `d"\'--...` e' + q, \
            L + 'c <code>d&quot;\'--...</code> e' + R
    elif how == 6:
        s = q + 'c [d' + x + 'e](/u--\'... "t--\'...") f' + q
        t = L + 'c <a href="' + T.ref.url("/u--'...") + \
            '" title="t--\'...">d' + x + 'e</a> f' + R
    else:
        s, t = q + "d's e's" + q, L + 'd' + RS + 's e' + RS + 's' + R
    T.eq(html(T, s if a == '' and b == '' else a + s + b, {'smart': True}),
         pre + t + post, 'quotes')


def apostrophe(T):
    """between two letters or digits"""
    w = 'abcxyzABZ0189\xe9\u4e2d\u0436'
    x = T.hole(1, w)
    y = T.hole(1, w)
    s = 'b' + x + "'" + y
    T.eq(html(T, s, {'smart': True}), '<p>b' + x + RS + y + '</p>\n',
         'an apostrophe')
    # several, none of them an opening one
    s = x + "'" + y + "'" + x + "'ll"
    if x not in '0189':
        T.eq(html(T, s, {'smart': True}), '<p>' + x + RS + y + RS + x + RS +
             'll</p>\n', 'apostrophes')


def untouched(T, k):
    """code, HTML, destinations, titles, autolinks, code blocks"""
    x = T.hole(1, '"\'-.a ')
    y = T.hole(1, '"\'-.a')
    z = T.hole(1, '"\'-.a')
    e = (x + y + z).replace('"', '&quot;')
    b = x + y + z
    if k == 0:
        s, w = 'b `c' + b + 'd`', '<p>b <code>c' + e + 'd</code></p>\n'
    elif k == 1:
        s, w = '```\n' + b + '\n```', '<pre><code>' + e + \
            '\n</code></pre>\n'
    elif k == 2:
        s, w = '    c' + b, '<pre><code>c' + e + '\n</code></pre>\n'
    elif k == 3:
        s, w = '<div>' + b + '\n', '<div>' + b + '\n'
    elif k == 4:
        s, w = 'c <!--d' + b + 'e-->', '<p>c <!--d' + b + 'e--></p>\n'
        T.assume('--' not in 'd' + b + 'e-')
    elif k == 5:
        T.assume(' ' not in b)
        s = '<http:c' + b + '>'
        w = '<p><a href="' + T.ref.esc(T.ref.url('http:c' + b)) + '">http:c' + e + \
            '</a></p>\n'
    elif k == 6:
        T.assume(' ' not in b)
        s = '[c](d' + b + ')'
        w = '<p><a href="' + T.ref.esc(T.ref.url('d' + b)) + '">c</a></p>\n'
    elif k == 7:
        w = '<p><a href="d" title="e' + e + 'f">c</a></p>\n'
        s = '[c](d (e' + b + 'f))'
    elif k == 8:
        T.assume(' ' not in b)
        s = '[c' + b + ']: d\n\n[c' + b + ']'
        return T.require('<a href="d">' in html(T, s, {'smart': True}),
                         'labels')
    else:
        T.assume(' ' not in b)
        s = '``` c' + b + '\n```'
        w = '<pre><code class="language-c' + e + '"></code></pre>\n'
    T.eq(html(T, s, {'smart': True}), w, 'not a text')


def escaped(T, c, w):
    """escapes and entities stay what they are"""
    x = T.hole(1, cs_not('\n\r\0*_`[]<>&"\'!\\-.;'))
    s = 'a' + x + c + 'b'
    T.eq(html(T, s, {'smart': True}), '<p>a' + T.ref.esc(x) + w +
         'b</p>\n', 'escaped')


CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', 'a\n', '- a\n', '[a]: b\n\n'
       '[a]', '[a](b "c")', '![a](b)', '`a`', '*a*', '**a** ', '<a:b>',
       '&amp;', '\\', 'a\n===\n', 'a  \n', '*a **b* c', '***\n', '_a', '`',
       '"', "'", '--', '...', '"a', "'a ", 'a"', '"a*', "*'a", '("', 'a-',
       '"\'', '.. ', '- - ', '[', '![', '[a"](', '<a b="', '&quot;', '\\"',
       '\xe9', '\u201c', '"a" \'b\' ', '``"', '--- ']


def smartly(T, s):
    T.eq(html(T, s, {'smart': True}), T.ref.to_html(s, True),
         'HTML of smart text differs from the reference')


def smartwithin(T, o):
    """smart punctuation in every inline construct"""
    within(T, o, smartly)


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, smartly) + \
        odds(q, smartly) + \
        drops(q, smartly, 19)


def own(tier):
    q = tier == 'quick'
    out = [(run, a, a + 9) for a in range(1, 41 if q else 121, 10)]
    out += [(dots, n) for n in range(1, 13)]
    out += [(quoted, c, k) for c in '"\'' for k in range(8)]
    out += [(apostrophe,)] + [(untouched, k) for k in range(10)]
    out += [(escaped, '\\"', '&quot;'), (escaped, "\\'", "'"),
            (escaped, '\\--', '--'), (escaped, '\\...', '...'),
            (escaped, '-\\-', '--'), (escaped, '..\\.', '...'),
            (escaped, '&quot;c&quot;', '&quot;c&quot;'),
            (escaped, '&#45;&#45;', '--'), (escaped, '&#39;', "'"),
            (escaped, '-&#45;', '--')]
    for k in range(0, 4 if q else 5):
        out.append((sdiff, k))
        out.append((only, k))
    out += [(sdiff, (6 if q else 8, '"\'a ')),
            (sdiff, (5 if q else 6, '"*a(')),
            (sdiff, (5 if q else 6, '\'*a ')),
            (sdiff, (5 if q else 6, '"-.a ')),
            (sdiff, (5 if q else 6, '"\n*_')),
            (only, (5 if q else 6, '"\'a *')), (only, (4, '"*_a ')),
            (only, (5, '-.a"')), (only, (4, '"\'[]()a')), (only, (4, '-.`<>')),
            (only, 'a*b', (4, '"*_\' '))]
    for c in CTX:
        out += [(sdiff, c, 1, '"a'), (sdiff, c, 'a', 1, "'", 1),
                (sdiff, c, (2, '"\'-. a*'), 'b'),
                (sdiff, c, '"', 1, '\''), (sdiff, c, (3, '"\'-.a ')),
                (sdiff, c, 'a', 1, '--', 1), (sdiff, c, '"a"', 1),
                (off, c, 2)]
        if c != '\u201c':
            out.append((only, c, (3, '"\'-. a*')))
        if not q:
            out += [(sdiff, c, 1, '"', 1), (sdiff, c, 1, '\'', 1),
                    (sdiff, c, (4, '"\'-.a '))] + \
                ([] if c == '\u201c' else [(only, c, 2)])
    out += [
        (smartwithin, o) for o in ('"a"', "'a'", '--', 'a---b', '...', "a's", '" a "',
                                   "'\"a\"'", '-----', '....')] + [
        (sdiff, Times('-', *BIG), ['', 'a', '>', ' -']),
        (sdiff, Times('.', *BIG), ['', 'a', ' .']),
        (sdiff, Times('"', *BIG[:20]), 'a', Times('"', *BIG[:20])),
        (sdiff, Times("'", *BIG[:20]), 'a', Times("'", *BIG[:20])),
        (sdiff, Times('"a ', *BIG[:20]), Times('b" ', *BIG[:20])),
        (sdiff, Times('"a \'b ', *BIG[:14]), Times("c' d\" ", *BIG[:14]))]
    return out
