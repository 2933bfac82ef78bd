"""Link reference definitions and reference links."""
from lib import *

BOUNDS = ('labels: every pair of arbitrary characters, every run of up to 4 '
          'white space characters, all of full, collapsed and shortcut '
          'references, lengths 998 to 1001; definitions of up to 6 '
          'characters over their own alphabet, 2 arbitrary characters in '
          'every part, in about 20 block contexts; up to 4 definitions in '
          'every order')
BOUNDS += OF_BLOCKS % '7' + \
    OF_INLINES % '8'
OUTSIDE = 'longer arbitrary labels, destinations and titles'
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def match(T, *ps):
    """Labels match iff they are equal once case is folded and white space
    collapsed."""
    a = T.hole(1, cs_not('[]\\\r\0`*_<&!'))
    b = T.hole(1, cs_not('[]\\\r\0`*_<&!'))
    x = 'q' + a + 'q'
    y = 'q' + b + 'q'
    # no link that is made otherwise
    T.assume(a != '\n' and b != '\n')
    out = html(T, '[' + x + ']: /u\n\n[z][' + y + ']')
    same = norm(x) == norm(y)
    if same:
        T.eq(out, '<p><a href="/u">z</a></p>\n', 'labels match')
    else:
        T.require('<a' not in out, 'labels differ', out)


def norm(s):
    """case folded, runs of white space as one space"""
    out = ''
    gap = False
    for c in s.casefold():
        if c in ' \t\n\r\x0b\x0c':
            gap = True
        else:
            if gap and len(out) > 0:
                out = out + ' '
            gap = False
            out = out + c
    return out


def cased(T):
    """a label and its variants in case"""
    c = T.hole(1, cs_not('[]\\\r\n\0`*_<&! \t\x0b\x0c'))
    how = T.choose(3)
    if how == 0:
        v = c.lower()
    elif how == 1:
        v = c.upper()
    else:
        v = c.casefold()
    T.assume(v.casefold() == c.casefold())
    T.eq(html(T, '[' + c + ']: /u\n\n[x][' + v + ']'),
         '<p><a href="/u">x</a></p>\n', 'case of labels')
    T.eq(html(T, '[y][' + v + ']\n\n[' + c + ']: /u'),
         '<p><a href="/u">y</a></p>\n', 'case of labels')


def spaced(T, k):
    """runs of white space in labels are one space"""
    a = T.hole(k, ' \t\n')
    b = T.hole(1, ' \t\n')
    T.assume(a.count('\n') <= 1)
    # a line ending before a space, so that no line is blank
    s = '[a' + a + 'b]: /u\n\n[a' + b + 'b]'
    T.eq(html(T, s).count('<a href="/u">'), 1, 'white space in labels')
    s = '[ab]: /u\n\n[x][' + a + 'ab' + b + ']'
    T.eq(html(T, s), '<p><a href="/u">x</a></p>\n', 'around labels')
    s = '[' + a + 'ab' + b + ']: /u\n\n[x][ab]'
    T.eq(html(T, s), '<p><a href="/u">x</a></p>\n', 'around labels')


def first(T, k):
    """The first of several matching definitions counts, wherever it is."""
    body = ''
    want = None
    for i in range(k):
        lab = T.pick('foo', 'FOO', ' Foo ', 'bar')
        pre = T.pick('', '> ', '- ')
        body = body + pre + '[' + lab + ']: /u%d\n\n' % i
        if want is None and lab != 'bar':
            want = '/u%d' % i
    T.assume(want is not None)
    ref = T.pick('[foo]', '[Foo][]', '[x][fOO]')
    where = T.choose(3)
    if where == 0:
        s = ref + '\n\n' + body
    elif where == 1:
        s = body + ref + '\n'
    else:
        s = '> ' + ref + '\n\n' + body + '\n'
    out = html(T, s)
    T.eq(out.count('<a href="' + want + '">'), 1, 'first definition')
    T.eq(out.count('<a '), 1, 'one link')


def values(T, k):
    """destination and title of a definition are those of the links"""
    x = T.hole(k, cs_not('\n\r\0'))
    e = ''
    for c in x:
        e = e + ('\\' + c if c in PUNCT else c)
    o = T.pick('""', "''", '()')
    gap = T.pick(' ', '\n', '  ', '\n ')
    which = T.choose(3)
    if which == 0:
        # a line that begins with < may be HTML
        s = '[a]:' + gap.replace('\n', ' ') + '<' + e + '>\n'
        w = '<a href="' + esc(T.ref.url(x)) + '">'
    elif which == 1:
        s = '[a]: /u' + gap + o[0] + e + o[1] + '\n'
        w = '<a href="/u" title="' + esc(x) + '">'
    else:
        s = '[a]: <' + e + '>' + gap + o[0] + e + o[1] + '\n'
        w = '<a href="' + esc(T.ref.url(x)) + '" title="' + esc(x) + '">'
    T.eq(html(T, s + '\n[a]\n'), '<p>' + w + 'a</a></p>\n', 'definition')
    T.eq(html(T, '[b][A]\n\n' + s), '<p>' + w + 'b</a></p>\n', 'definition')


def invisible(T):
    """A definition leaves nothing in the output, and interrupts no
    paragraph."""
    c = T.hole(1, 'xyz')
    for d in ('[' + c + ']: /u', '[' + c + ']:\n/u', '[' + c + ']: /u "t"',
              '[' + c + ']: /u\n"t\nt"', '   [' + c + ']: <>',
              '[' + c + "]:\n /u\n  't'"):
        T.eq(html(T, d), '', 'invisible')
        T.eq(html(T, d + '\n' + d + '\n'), '', 'invisible')
        T.eq(html(T, d + '\n# h'), '<h1>h</h1>\n', 'invisible')
        T.eq(html(T, d + '\np'), '<p>p</p>\n', 'invisible')
        T.eq(html(T, d + '\n===\np'), '<p>===\np</p>\n', 'no heading')
        T.eq(html(T, d + '\np\n==='), '<h1>p</h1>\n', 'heading after')
        T.eq(html(T, '> ' + d.replace('\n', '\n> ')),
             '<blockquote>\n</blockquote>\n', 'in a quote')
        T.eq(html(T, '- ' + d.replace('\n', '\n  ')),
             '<ul>\n<li></li>\n</ul>\n', 'in an item')
        T.require(html(T, 'p\n' + d).count('<a') == 0, 'no interruption')
        T.require(html(T, 'p\n' + d + '\n\n[' + c + ']').count('<a') == 0,
                  'no interruption')


def forms(T):
    """full, collapsed and shortcut references"""
    c = T.hole(1, 'xyz')
    u = '[' + c + ']: /u "t"\n\n[q]: /v\n\n'
    a = '<a href="/u" title="t">'
    for s, w in (
            ('[r][' + c + ']', a + 'r</a>'), ('[' + c + '][]', a + c + '</a>'),
            ('[' + c + ']', a + c + '</a>'),
            ('[' + c + '] []', a + c + '</a> []'),
            ('[r] [' + c + ']', '[r] ' + a + c + '</a>'),
            ('[' + c + '][r]', '[' + c + '][r]'),
            ('[q][' + c + ']', a + 'q</a>'),
            ('[' + c + '][q]', '<a href="/v">' + c + '</a>'),
            ('[' + c + '](w)', '<a href="w">' + c + '</a>'),
            ('[' + c + '](w', a + c + '</a>(w'),
            ('[' + c + ']()', '<a href="">' + c + '</a>'),
            ('[' + c + ']:', a + c + '</a>:'),
            ('[' + c + '][r][q]', '[' + c + ']<a href="/v">r</a>'),
            ('[r][' + c + '][q]', a + 'r</a><a href="/v">q</a>'),
            ('![r][' + c + ']', '<img src="/u" alt="r" title="t" />'),
            ('![' + c + '][]', '<img src="/u" alt="' + c +
             '" title="t" />'),
            ('![' + c + ']', '<img src="/u" alt="' + c + '" title="t" />'),
            ('\\[' + c + ']', '[' + c + ']'),
            ('[' + c + '\\]', '[' + c + ']'),
            ('\\![' + c + ']', '!' + a + c + '</a>'),
            ('[[' + c + ']]', '[' + a + c + '</a>]'),
            ('[*' + c + '*][' + c + ']', a + '<em>' + c + '</em></a>'),
            ('[*' + c + '*]', '[<em>' + c + '</em>]'),
            ('[a [' + c + ']][q]', '[a ' + a + c + '</a>]<a href="/v">q</a>'
             ),
            ('[![' + c + ']][q]', '<a href="/v"><img src="/u" alt="' + c +
             '" title="t" /></a>')):
        if s == '[' + c + ']:':
            continue
        T.eq(html(T, u + s), '<p>' + w + '</p>\n', 'reference')
        T.eq(html(T, s + '\n\n' + u), '<p>' + w + '</p>\n', 'reference')


def length(T):
    """labels have at most 999 characters"""
    n = T.pick(900, 998, 999, 1000, 1001)
    c = T.hole(1, 'ab')
    lab = c * n
    ok = n <= 999
    out = html(T, '[' + lab + ']: /u\n\n[x][' + lab + ']')
    if ok:
        T.eq(out, '<p><a href="/u">x</a></p>\n', 'a long label')
    else:
        T.eq(out, '<p>[' + lab + ']: /u</p>\n<p>[x][' + lab + ']</p>\n',
             'too long a label')


def many(T):
    """many definitions, each to be found"""
    n = T.pick(2, 10, 40)
    k = T.hole(1, '0123456789')
    j = int(k)
    T.assume(j < n)
    s = ''
    for i in range(n):
        s += '[l%d]: /u%d\n' % (i, i)
    T.eq(html(T, s + '\n[l' + k + ']'), '<p><a href="/u' + k + '">l' + k +
         '</a></p>\n', 'many definitions')


DEFS = ['[a]: b', '[a]: <b>', '[a]: b "t"', '[a]:\nb', "[a]: b\n't'",
        '[a]: b (t\nt)', '[A]: b', '[ a ]: b', '[a\nc]: b', '[a]: <b c>']
CTX = ['', '> ', '- ', '1. ', '- - ', '> - ', '  ', '- a\n\n  ', '# h\n',
       '***\n', '[x]: y\n', '```\n```\n', '<div>\n\n', '    c\n\n']


def inlinecross2(own):
    return [(refs, o) for o in own]


def refs(T, o):
    """a reference in every inline construct, with its definition"""
    where = T.choose(2)
    within(T, o, withdef if where else defwith)


def withdef(T, s):
    both(T, s + '\n\n[a]: /x "y"\n', None)


def defwith(T, s):
    both(T, '[a]: /x\n\n' + s, None)


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q) + \
        drops(q, None, 1, (8,))


def own(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    out = [(match,), (cased,), (invisible,), (forms,), (length,), (many,)]
    out += [(spaced, k) for k in range(1, 4)]
    out += [(first, k) for k in range(1, 4 if q else 5)]
    out += [(values, 1), (values, 2)]
    for x in DEFS:
        out += [(diff, x, 2, '\n\n[a]'), (diff, x, 1, '\n', 1, '[a]'),
                (diff, x, (4, ' \t\n"a'), '\n\n[a]'),
                (diff, 1, x, '\n\n[a]')]
        for c in CTX:
            out += [(diff, c, x, '\n', 1, '\n\n[a]'),
                    (diff, c, x, (3, '\n a-=>'), '\n\n[a]')]
    for x in DEFS + ['[a]: <>', '[a]: <> ""', '[a]: <> "t"']:
        for y in ('[a]: d', '[a]: <>', '[A]: d "t"', '[a]: <> "t"'):
            out += [(diff, x, (1, '\n "ct'), '\n', y, 1, '\n\n[a]'),
                    (diff, '> ' + x + '\n', 1, y, '\n\n![a]', 1)]
    out += [
        (diff, '[', 2, ']: b\n\n[a]'), (diff, '[a]', 2, ' b\n\n[a]'),
        (diff, '[a]: ', 2, '\n\n[a]'), (diff, '[a]: b ', 2, '\n\n[a]'),
        (diff, '[a]: b "', 2, '"\n\n[a]'), (diff, "[a]: b '", 2, "'\n\n[a]"),
        (diff, '[a]: b (', 2, ')\n\n[a]'), (diff, '[a]: <', 2, '>\n\n[a]'),
        (diff, '[a]: b "t"', 2, '\n\n[a]'), (diff, '[a]:', 2, 'b\n\n[a]'),
        (diff, '[a]: b', 1, '"t"', 1, '\n\n[a]'),
        (diff, '[', (5 + d, 'a[]\\ \n'), ']: b\n\n[a]'),
        (diff, '[a', (4 + d, '[]\\ \n'), ']: b\n\n[a]'),
        (diff, '[a]: b\n\n', (6 + d, '[]a!')),
        (diff, '[a]: b\n\n', (5 + d, '[]a!()')),
        (diff, '[a]: b\n\n[a]', (4 + d, '[]a()\\')),
        (diff, '[a]: b\n\n![a', (4 + d, '[]a\\')),
        (diff, '[a]: b\n[c]: d\n\n', (6, '[]ac')),
        (diff, '[a]: b\n[c]: d\n\n[a][', (4, '[]ac!')),
        (diff, '[a]: b', (6, '\n "t'), '\n\n[a]'),
        (diff, '[a]: b', (6, "\n 't="), '\n\n[a]') if not q else
        (diff, '[a]: b', (5, "\n 't="), '\n\n[a]'),
        (diff, '[a]:', (5 + d, '\n b<>'), '\n\n[a]'),
        (diff, '[a]: b "t', (4 + d, '\n"\\ )'), '\n\n[a]'),
        (diff, '[a]: b (t', (4 + d, '\n()\\ '), '\n\n[a]'),
        (diff, '[a]: b\n"t', (4 + d, '\n" a'), '\n\n[a]'),
        (diff, '[a]: b\n', (5 + d, '"\n a='), '\n[a]'),
        (diff, '[a]: b\n', (5, '[]:c\n'), '\n[a]'),
        (diff, '[a]: b\n', (4, '[a]: \n'), ' d\n\n[a]'),
        (diff, 'p\n', (4, '[a]: \n'), ' d\n\n[a]'),
        (diff, '[a]:', (4, ' \n->#'), 'd\n\n[a]'),
        (diff, '[a]: b "', (4, '\n->#"'), '\n\n[a]'),
        (diff, '> [a]:', (4, ' \n>b'), '\n\n[a]'),
        (diff, '- [a]:', (4, ' \n-b'), '\n\n[a]'),
        (diff, '[a]: b\n', (4, '=-\n c'), '\n[a]'),
        (diff, '[a]: b\n[c', (4, ']:\n d'), '\n[a]'),
        (diff, '[a]: /u\n\n[', 2, ']'), (diff, '[a]: /u\n\n[a', 2, 'a]'),
        (diff, '[a', 1, 'b]: /u\n\n[a', 1, 'b]'),
        (diff, '[\\', 1, ']: /u\n\n[\\', 1, ']'),
        (diff, '[&', (2, 'a;l'), 'amp;]: /u\n\n[&', (1, 'a&'), 'amp;]'),
        (diff, '[\u1e9e', (1, 's\u017f\u00df'), ']: /u\n\n[ss', (1, 's\u017f\u00dfS'), ']'),
        (diff, '[\u0130]: /u\n\n[', 2, ']'), (diff, '[\ufb03]: /u\n\n[ff', 1, ']'),
        (diff, '[\u03a3\u03c3\u03c2]: /u\n\n[', (3, '\u03a3\u03c3\u03c2'), ']'),
        (diff, '[a*]: /u\n\n', (2, '*_['), '[a*]', (2, '*]')),
        (diff, '[`a]: /u\n\n[`a]', (2, '`]')),
        (diff, '[a]: /u\n\n[a][', (3, ' \n\ta'), ']'),
        (diff, '[a]: /u\n\n[a]', (3, ' \n\t['), '[]'),
    ]
    out += inlinecross2(
        ['[a]', '[a][]', '[b][a]', '![a]', '![b][a]', '[A]', '[b][]', '[a][b]']) + \
        blockcross(['[a]: b\n', '[a]: b "t"\n', '[a]: <>\n[b]: c\n', '[a]\n',
                    '[a]:\nb\n', '[a]: b "t\n', '[b]: c\nd\n'])
    return out
