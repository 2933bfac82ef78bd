"""Line endings, the end of the text, and NUL."""
from lib import *

BOUNDS = ('every text of at most 4 characters with any Unicode scalar '
          'values; every mixture of the three line endings in templates of '
          'up to 6 lines with 1 to 3 arbitrary characters; about 60 block '
          'contexts')
BOUNDS += OF_BLOCKS % '7 (thorough: 48)' + \
    OF_INLINES % '5'
BOUNDS += OF_MANY
OUTSIDE = 'texts that need more arbitrary characters at once'

OTHER = '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


def same(T, a, b, label):
    """the same tree, positions and HTML"""
    x = parse(T, a)
    y = parse(T, b)
    T.docs.pop()
    T.eq(where(x), where(y), label)
    T.same(T.pkg.HtmlRenderer().render(x), T.pkg.HtmlRenderer().render(y),
           label)


def where(n):
    """a node with everything in it, positions included"""
    f = [n.t, n.literal, n.destination, n.title, n.info, n.level,
         n.sourcepos]
    d = n.list_data
    if d:
        f.append([d.get('type'), d.get('tight'), d.get('start'),
                  d.get('bullet_char'), d.get('delimiter')])
    return [f, [where(c) for c in kids(n)]]


def unify(T, *parts):
    """\\r\\n and \\r are line endings as \\n is"""
    s = doc(T, parts)
    same(T, s, s.replace('\r\n', '\n').replace('\r', '\n'), 'line endings')


def mixed(T, *lines):
    """any mixture of line endings"""
    a = ''
    b = ''
    for x in lines:
        x = doc(T, [x])
        e = T.pick('\n', '\r\n', '\r')
        # not two line endings that make one
        T.assume(not (e == '\n' and x == '' and a[-1:] == '\r'))
        a = a + x + e
        b = b + x + '\n'
    same(T, a, b, 'mixed line endings')
    T.eq(html(T, a), T.ref.to_html(b), 'HTML')


def final(T, *parts):
    """a final line ending changes nothing"""
    s = doc(T, parts)
    T.assume(s == '' or s[-1] not in '\r\n')
    e = T.pick('\n', '\r\n', '\r')
    same(T, s + e, s, 'final line ending')


def nul(T, *parts):
    """NUL is U+FFFD"""
    s = doc(T, parts)
    T.assume('\x00' in s)
    same(T, s, s.replace('\x00', '\ufffd'), 'NUL')
    out = html(T, s)
    T.require('\x00' not in out, 'no NUL in the output')


def others(T, a, b):
    """nothing else ends a line"""
    c = T.hole(1, OTHER)
    s = doc(T, [a]) + c + doc(T, [b])
    x = parse(T, s)
    n = x
    while n.last_child is not None:
        n = n.last_child
    pos = x.sourcepos
    T.eq(pos[1][0], len(lines_of(s)), 'lines of the document')
    T.eq(html(T, s), T.ref.to_html(s), 'HTML')


def softly(T):
    """... inside a paragraph or code it is a character like any other"""
    c = T.hole(1, OTHER)
    T.eq(html(T, 'a' + c + 'b'), '<p>a' + c + 'b</p>\n', 'text')
    T.eq(html(T, 'a' + c + '# b'), '<p>a' + c + '# b</p>\n', 'text')
    T.eq(html(T, '    a' + c + 'b'), '<pre><code>a' + c +
         'b\n</code></pre>\n', 'code')
    T.eq(html(T, '```\na' + c + 'b\n' + c + '\n```'), '<pre><code>a' + c +
         'b\n' + c + '\n</code></pre>\n', 'fenced code')
    T.eq(html(T, '# a' + c + '- b'), '<h1>a' + c + '- b</h1>\n', 'heading')
    T.eq(html(T, '<div>a' + c + 'b\n*c*'), '<div>a' + c + 'b\n*c*\n',
         'HTML')
    T.eq(html(T, '> a' + c + 'b\n> c'), '<blockquote>\n<p>a' + c +
         'b\nc</p>\n</blockquote>\n', 'quote')


def longline(T):
    """line endings after long lines and many lines"""
    n = T.pick(1, 2, 100, 1000)
    e = T.hole(1, '\r\n')
    a = ('a' * 70 + e) * n
    T.eq(html(T, a), '<p>' + '\n'.join(['a' * 70] * n) + '</p>\n',
         'many lines')


def endings(T, s):
    """another line ending in place of \\n"""
    e = T.pick('\r', '\r\n')
    s = s.replace('\r', ' ')
    same(T, s.replace('\n', e), s, 'line endings')
    if not s.endswith('\n'):
        same(T, s + e, s, 'final line ending')
    elif not s.endswith('\n\n'):
        same(T, s[:-1], s, 'no final line ending')


def near(T, own):
    beside(T, own, endings)


def around(T, own):
    inside(T, own, endings)


def zero(T, s):
    T.assume('\x00' in s)
    same(T, s, s.replace('\x00', '\ufffd'), 'NUL')


def nuls(T, own):
    """NUL in every container and construct"""
    f = T.choose(3)
    (beside if f == 0 else inside if f == 1 else within)(T, own, zero)


MARKUP = '\r\n -*>a\t`#<'
CTX = ['- a\r', '> a\r', '    a\r', '```\r', '```\r\n', '<div>\r', '<!--\r',
       '<pre>\r\n', '[a]: b\r', '[a]:\r\nb\r', '[a]: b "c\r', '# a\r',
       'a\r=', 'a\r\n-', 'a  \r', 'a\\\r\n', '`a\r', '*a\r\n', '<a\r',
       '[a](b\r', '[a](b "\r\n', '![a\r', '- a\r\n\r\n', '1.\r\n', '-\r',
       'a\r\n\r\n', '~~~\r\n\r', '- ```\r\n', '> ```\r', '\r\n', '\r', '***\r',
       '\ta\r\n', '- a\r\n  - b\r', '<?\r\n', '<b c="\r', '&amp\r', 'a \r']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, endings) + \
        odds(q, endings, 2) + \
        drops(q, endings, 19)


def own(tier):
    q = tier == 'quick'
    out = []
    for k in range(1, 4 if q else 5):
        out += [(unify, k), (final, k)]
    for k in range(1, 3 if q else 4):
        out.append((nul, k, '\x00', 1))
        out.append((nul, k))
    for c in CTX:
        out.append((unify, c, (3 if q else 5, MARKUP)))
        out.append((unify, c, 1 if q else 2))
        out.append((final, c, (2 if q else 3, MARKUP)))
        out.append((nul, c, '\x00', 1))
    out += [(unify, (5 if q else 7, '\r\n a')), (unify, (5, '\r\n-a')),
            (unify, (5 if q else 7, '\r\n`')), (unify, 'a', (4, '\r\n \\'),
                                                'b'),
            (unify, '<div>', (4, '\r\na'), 'b'), (softly,), (longline,),
            (unify, '    a', (5, '\r\n\t '), 'b'),
            (unify, '```\n', (5, '\r\n`'), 'b'),
            (mixed, 'a', '', 'b'), (mixed, '```', 'a', '', 'b', '```'),
            (mixed, '- a', '- b', '', '- c'), (mixed, '> a', '> b', 'c'),
            (mixed, '    a', '', '    b'), (mixed, '<div>', 'a', '', 'b'),
            (mixed, '[a]:', 'b', '"c', 'd"', '[a]'),
            (mixed, 'a  ', 'b\\', 'c', 'd'), (mixed, '`a', 'b`', '*c', 'd*'),
            (mixed, '<a', 'b="c', 'd">', 'e'), (mixed, 'a', '===', 'b', '-'),
            (mixed, '<!--', 'a', '', '-->', 'b'), (mixed, '# a', '## b', 'c'),
            (mixed, '- a', '', '  b', '- c'), (mixed, '1. a', '', '2. b'),
            (mixed, '[a](b', '"c', 'd")'), (mixed, (1, 'a> -'), 'b', (2, ' -`a')),
            (mixed, '~~~', (1, ' ~a'), '~~~', 'b'), (mixed, '', '', 'a', ''),
            (mixed, 'a' * 300, 'b' * 300), (mixed, (1, cs_not('\r\n')), 'b')]
    for a in ['a', '- a', '> a', '# a', '    a', '```\na', '<div>', '[a]:',
              '[a]: b', 'a\n', '***', '-', '1.', '`a', '*a', '', 'a  ',
              'a\\', '<!--', '~~~', '<a', '[a](', '&amp']:
        for b in ['b', '\n', '# b', '- b', '', '> b', '```', '===', '-->',
                  ' ', '    b', ')']:
            out.append((others, a, b))
    for p in most(q, PIECES, 7):
        out += [(near, p), (around, p)]
    out += [(nuls, x) for x in ('\0', 'a\0', '\0\n', '`\0`', '<a\0>\n')]
    return out
