"""Code spans."""
from lib import *

BOUNDS = ('code spans with contents of up to 3 arbitrary characters '
          '(thorough: 4) and 7 over backquotes, spaces and newlines; '
          'delimiters of 1 to 8 backquotes; every run length against every '
          'other up to 6; other constructs overlapping with code spans')
BOUNDS += OF_INLINES % '5' + \
    OF_MANY
OUTSIDE = ('longer arbitrary contents')


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def span(T, parts, n):
    """Between two backtick strings of the same length: the text, line
    endings as spaces, one space off both ends unless it is all spaces."""
    s = doc(T, parts)
    T.assume('\r' not in s and '\0' not in s and '\n\n' not in s and
             '`' not in s and len(s) > 0)
    # one paragraph, and no line of it loses spaces or starts a block
    for x in s.split('\n')[1:]:
        T.assume(len(x) and x[0] not in ' \t\x0b\x0c=-+*>#<|1234567890~[')
    for x in s.split('\n'):
        T.assume(len(x) and x[-1] not in ' \t' or x is s)
    k = T.choose(n) + 1
    b = '`' * k
    c = s.replace('\n', ' ')
    if c[0] == ' ' and c[-1] == ' ' and len(c.strip(' ')):
        c = c[1:-1]
    want = '<code>' + esc(c) + '</code>'
    T.eq(html(T, 'x' + b + s + b + 'y\n'), '<p>x' + want + 'y</p>\n',
         'code span')
    T.eq(html(T, '*x' + b + s + b + '*\n'),
         '<p><em>x' + want + '</em></p>\n', 'code span in emphasis')
    T.eq(html(T, 'z[x' + b + s + b + '](/u)\n'),
         '<p>z<a href="/u">x' + want + '</a></p>\n', 'code span in a link')
    # runs of other lengths do not close it
    o = '`' * (k + 1)
    T.eq(html(T, 'x' + b + 'q' + o + s + 'r' + b + '\n'),
         '<p>x<code>q' + o + esc(s.replace('\n', ' ')) +
         'r</code></p>\n', 'longer run inside')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q) + \
        drops(q, None, 3, (14, 15))


def own(tier):
    q = tier == 'quick'
    return [
        (span, [(1, 2 if q else 3, None)], 3),
        (span, [(4 if q else 5, ' a\n*')], 2),
        (diff, '`', 3, '`'), (diff, '``', 2, '`', 1), (diff, 1, '`', 1, '`', 1),
        (diff, 'a`', 1, '\n', 1, '`b'),
        (diff, (7 if q else 9, '`a ')), (diff, (6 if q else 8, '`\\a')),
        (diff, (7 if q else 8, '` \n')), (diff, (10 if q else 13, '`a')),
        (diff, (6, '`*a')), (diff, (6, '`<>a')), (diff, (6, '`[]a')),
        (diff, (6, '`_ a')),
        (diff, Rep('`', 1, 6), 'a', Rep('`', 0, 6), 'b', Rep('`', 0, 6), 'c',
         Rep('`', 0, 4)),
        (diff, Rep('`', 30, 34), 'a', Rep('`', 30, 34), (2, ' b'), 'c',
         Rep('`', 30, 34)),
        (diff, '\\', Rep('`', 1, 4), 'a', (1, ' \\'), Rep('`', 1, 4), 'b',
         Rep('`', 0, 4)),
        (diff, '`', (3, ' \n'), 'a', (3, ' \n'), '`'),
        (diff, '`', Rep(' ', 0, 5), ['', 'a'], Rep(' ', 0, 5), '`'),
        (diff, '`` ', ['`', '``', '```', 'a`', '`a', ' '], ' ``', (1, ' `')),
        (diff, '`', ['&amp;', '&#97;', '\\*', '<b>', '*a*', '[a](b)',
                     '<http://a>', '![a](b)', 'a  \nb', 'a\\\nb', '"',
                     "'", '&lt;', 'a\xa0', '\u2003a\u2003'], (1, ' `'), '`'),
        # precedence over emphasis, links; not over tags and autolinks
        (diff, ['*a', '**a', '_a'], (1, ' `'), '`', ['*', '**', '_'],
         (2, '`* ')),
        (diff, '[a`', (2, '](`'), ['](/u)`', '`](/u)', '`](/u`)'], (1, '`b')),
        (diff, '<a href="`">`', (1, '` a'), '`'),
        (diff, '`<a href="`">`', (1, '` a'), '`'),
        (diff, ['<http://a`b>', '`<http://a`b>', '<b`c>', '&`amp;', '`&amp`;'],
         (2, '` a'), '`'),
        (diff, '[a', (2, '`]'), '\n\n[', (2, '`]'), 'a]: /u'),
        (diff, ['# ', '- ', '> ', '> - ', '1. '], '`a', (1, '` \n'), 'b`',
         (1, '` \n'), 'c'),
        (diff, '> `a\n> b', (1, ' `'), '\n', (1, '> '), ' c`'),
        (diff, 'a `b\n', ['\n', '===\n', '# ', '- ', '> ', '<div>', '***\n'],
         'c` d'),
        (diff, '`a` ' * 40, (2, '`a '), 'b`'),
        (diff, '`' + 'word ' * 300, (2, '`a '), '`'),
        (diff, '`a ``b ```c ````d `````e ', Rep('`', 1, 6), (1, ' `'),
         'f ', Rep('`', 1, 6)),
    ] + inlinecross(
        ['`a`', '`` a ``', '```a``b```', '`a', '` a\n`']) + [
        (diff, Times('`', *BIG), 'a', Times('`', *BIG[:20]), ['', '`', '``b```'], 'c'),
        (diff, '`', Times('a ', *BIG), ['`', '``', '`b`']),
        (diff, '`', Times('\n', 1), Times('a\n', *BIG[:24]), ['`', '``']),
        (diff, '``', Times(' ', *BIG), ['a', '`', ''], Times(' ', 0, 1, 2, 40), '``')]
