"""Backslash escapes."""
from lib import *

BOUNDS = ('every character escaped in ten places (text, headings, '
          'destinations, titles, labels, info strings, code, HTML, '
          'autolinks), with 2 or 3 arbitrary characters at once; runs of 0 to '
          '9 backslashes before an arbitrary character')
BOUNDS += OF_INLINES % '7' + \
    OF_MANY
OUTSIDE = ('longer arbitrary texts')
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def escaped(s):
    out = ''
    for c in s:
        out = out + ('\\' + c if c in PUNCT else c)
    return out


def text(T, *parts):
    """Every punctuation character escaped: the text is literal."""
    s = doc(T, parts)
    T.assume('\r' not in s and '\0' not in s and len(s) > 0)
    for ln in s.split('\n'):
        T.assume(len(ln) > 0 and ln[0] not in ' \t\x0b\x0c' and
                 ln[-1] not in ' \t\x0b\x0c')
    e = escaped(s)
    w = esc(s)
    T.eq(html(T, e + '\n'), '<p>' + w + '</p>\n', 'escaped paragraph')
    T.eq(html(T, e, {'smart': True}), '<p>' + w + '</p>\n',
         'escaped paragraph, smart')
    T.eq(html(T, 'x*y' + e + 'z*\n'), '<p>x<em>y' + w + 'z</em></p>\n',
         'escaped text in emphasis')
    T.eq(html(T, 'x[y' + e + 'z](/u)\n'),
         '<p>x<a href="/u">y' + w + 'z</a></p>\n', 'escaped link text')
    T.eq(html(T, 'x![y' + e + 'z](/u)\n'),
         '<p>x<img src="/u" alt="y' + w + 'z" /></p>\n',
         'escaped image description')
    T.eq(html(T, 'x[y](/u "' + e + '")\n'),
         '<p>x<a href="/u" title="' + w + '">y</a></p>\n', 'escaped title')
    if '\n' not in s:
        T.eq(html(T, '## ' + e + '\n'), '<h2>' + w + '</h2>\n',
             'escaped heading')
        T.eq(html(T, e + '\n---\n'), '<h2>' + w + '</h2>\n',
             'escaped setext heading')
        T.eq(html(T, '- ' + e + '\n'), '<ul>\n<li>' + w + '</li>\n</ul>\n',
             'escaped list item')


def word(T, n):
    """in destinations and info strings"""
    s = T.hole(n, cs_not('\n\r\0 \t\x0b\x0c'))
    e = escaped(s)
    a = parse(T, '[a](</x' + e + '> "t")\n').first_child.first_child
    b = parse(T, '[a]\n\n[a]: </x' + e + '>\n').first_child.first_child
    c = parse(T, '[a](/x' + ''.join(['\\' + x if x in PUNCT else 'y'
                                     for x in s]) +
              ')\n').first_child.first_child
    T.require(a.t == 'link' and b.t == 'link' and c.t == 'link',
              'escaped destinations make links')
    T.eq(a.destination, T.ref.url('/x' + s), 'escaped <destination>')
    T.eq(b.destination, T.ref.url('/x' + s), 'escaped definition')
    T.eq(c.destination, T.ref.url('/x' + ''.join(
        [x if x in PUNCT else 'y' for x in s])), 'escaped destination')
    f = parse(T, '~~~ x' + e + '\na\n~~~\n').first_child
    T.require(f.t == 'code_block', 'escaped info string')
    T.eq(f.info, T.ref.strip('x' + s), 'escaped info string')


def keep(T):
    """A backslash before anything else, and in code, autolinks and raw
    HTML, is a backslash."""
    c = T.hole(1, cs_not(PUNCT + '\n\r\0'))
    T.eq(html(T, 'a\\' + c + 'b\n'), '<p>a\\' + c + 'b</p>\n', 'backslash')
    c = T.hole(1, PUNCT + 'ab ')
    T.assume(c not in '`')
    w = '\\' + esc(c)
    T.eq(html(T, 'a`\\' + c + 'x`b'), '<p>a<code>' + w + 'x</code>b</p>\n',
         'backslash in code span')
    T.eq(html(T, '    \\' + c + 'x'), '<pre><code>' + w + 'x\n</code></pre>\n',
         'backslash in indented code')
    T.eq(html(T, '```\n\\' + c + 'x\n```'),
         '<pre><code>' + w + 'x\n</code></pre>\n', 'backslash in fenced code')
    T.eq(html(T, 'a<b c="\\' + (c if c != '"' else '&') + 'x">d'),
         '<p>a<b c="\\' + (c if c != '"' else '&') + 'x">d</p>\n',
         'backslash in a tag')
    if c not in '<> `':
        u = T.ref.url('http://a\\' + c)
        T.eq(html(T, 'x<http://a\\' + c + '>'), '<p>x<a href="' + esc(u) +
             '">http://a' + w + '</a></p>\n', 'backslash in autolink')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q)


def own(tier):
    q = tier == 'quick'
    return [
        (text, 2 if q else 3), (text, (3 if q else 4, PUNCT + 'a1 ')),
        (text, '12', (2, '.)-+'), 'a\nb', (1, PUNCT), '\n', (1, PUNCT), 'c'),
        (word, 1), (word, 2), (keep,),
        (diff, '\\', 3), (diff, 1, '\\', 1, '\\', 1), (diff, 'a\\', 2, '\nb'),
        (diff, '*a\\', 2, '*'), (diff, '[a\\', 2, '](b)'),
        (diff, '[a](b\\', 2, ')'), (diff, '[a](b "\\', 2, '")'),
        (diff, '[a]\n\n[a]: b\\', 2, '"t\\', 1, '"'),
        (diff, '``` a\\', 2, '\nb'), (diff, '<a\\', 2, '>'),
        (diff, '<http://a\\', 2, '>'), (diff, '`a\\', 2, '`'),
        (diff, '[a\\', 1, '][]\n\n[a\\', 1, ']: /u'),
        (diff, '# a \\', 2, '\n'), (diff, '\\', 1, '\n===\n'),
        (diff, Rep('\\', 0, 7), ['*a*', '`a`', '[a](b)', '<a>', '&amp;', '_a_',
                                 '![a](b)', '# a', '- a', '> a', '1. a',
                                 '```\na\n', '***', '\n', '==', 'a',
                                 '<http://a>']),
        (diff, 'b', Rep('\\', 0, 9), ['*a*', '`a`', '[a](b)', '<a>', '&amp;',
                                      '![a](b)', '\nc', '  \nc', '"', '\xa0',
                                      '\u2014', '\xbf', '\u00b7'], 'd'),
        (diff, '[a', Rep('\\', 0, 5), '](b', Rep('\\', 0, 5), ') "t',
         Rep('\\', 0, 3), '")'),
        (diff, '[a](b "t', Rep('\\', 0, 5), '" c', Rep('\\', 0, 3), '")'),
        (diff, '[a', Rep('\\', 0, 5), ']: /u\n\n[a', Rep('\\', 0, 5), ']'),
        (diff, '**a', Rep('\\', 0, 3), '**', Rep('\\', 0, 3), '*b*'),
        (diff, '\\' * 40, (2, '\\*a'), 'b*'),
        (sdiff, (4, '\\"\'a')), (sdiff, 'a\\', (3, '-.\\'), '-b'),
        (sdiff, '"a\\"', (2, ' "\\'), 'b"'), (sdiff, '\\', 1, '--', 1),
    ] + inlinecross(
        ['\\*a\\*', '\\\\', '\\a', '\\"', '\\]', '\\)', '\\&amp;']) + [
        (diff, Times('\\', *BIG), ['*a*', '`a`', '[a](b)', '<a>', '&amp;', '\nb', '#']),
        (diff, '[a](b', Times('\\', *BIG), [')', '))', ' "t")', '> '], 'c'),
        (diff, '[a', Times('\\', *BIG), ['](b)', ']](b)'], 'c')]
