"""Headings and thematic breaks."""
from lib import *

BOUNDS = ('headings with 2 or 3 arbitrary characters as contents and after '
          'the closing sequence; levels 1 to 8, indentations 0 to 5; setext '
          'underlines of 1 to 40 characters; lines of 6 to 8 characters over '
          'the alphabets of breaks, underlines and headings, after and before '
          'other blocks')
BOUNDS += OF_BLOCKS % '6' + \
    OF_MANY
OUTSIDE = ('longer arbitrary contents')


def atx(T, n):
    """# times level, a space, text: a heading of that level"""
    s = T.hole(n, cs_not('\n\r\0'))
    lv = T.choose(8) + 1
    got = html(T, '#' * lv + ' a' + s + 'b\n')
    if lv > 6:
        want = T.ref.to_html('\\' + '#' * lv + ' a' + s + 'b\n')
    else:
        body = html(T, 'a' + s + 'b\n')
        want = '<h%d>' % lv + body[3:-5] + '</h%d>\n' % lv
    T.eq(got, want, 'ATX heading')


def setext(T, n, ch):
    """a paragraph, underlined: a heading with the paragraph's content"""
    s = T.hole(n, cs_not('\n\r\0'))
    k = T.choose(5)
    k = (1, 2, 3, 9, 40)[k]
    text = 'a' + s + 'b'
    body = html(T, text + '\n')
    lv = '1' if ch == '=' else '2'
    want = '<h' + lv + '>' + body[3:-5] + '</h' + lv + '>\n'
    for ind in ('', '   '):
        for tail in ('', '  ', '\t'):
            T.eq(html(T, text + '\n' + ind + ch * k + tail + '\n'), want,
                 'setext heading')


def hr(T, n):
    """three or more of one of *-_ and nothing but spaces otherwise"""
    ch = T.pick('*', '-', '_')
    s = T.hole(n, ch + ' \t')
    c = 0
    for x in s:
        if x == ch:
            c += 1
    T.assume(c >= 3)
    ind = 0
    T.assume(s[0] == ch)
    for pre in ('', ' ', '   '):
        T.eq(html(T, pre + s + '\n'), '<hr />\n', 'thematic break')
        # it can interrupt a paragraph unless it is a setext underline
        got = html(T, 'a\n' + pre + s + '\nb\n')
        if ch == '-' and s.rstrip(' \t') == '-' * c:
            T.eq(got, '<h2>a</h2>\n<p>b</p>\n', 'setext underline')
        else:
            T.eq(got, '<p>a</p>\n<hr />\n<p>b</p>\n', 'break in paragraph')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q, None, 2) + \
        drops(q, None, 1, (1, 10))


def own(tier):
    q = tier == 'quick'
    return [
        (atx, 2 if q else 3), (setext, 2, '='), (setext, 2, '-'),
        (hr, 6 if q else 8),
        (diff, '#', 3 if q else 4), (diff, 2, '#', 1),
        (diff, '# ', 3), (diff, '##', 1, 'a', 1, '#', 1),
        (diff, 'a\n', 3), (diff, 'a', 1, '\n', 1, '==', 1),
        (diff, '--', 2, '\n'), (diff, 1, '**', 2),
        (diff, Rep(' ', 0, 4), Rep('#', 1, 8), (3, ' \ta#'), '\n'),
        (diff, Rep(' ', 0, 4), Rep('#', 1, 8)),
        (diff, '## a', (7 if q else 9, ' \t#')),
        (diff, '# ', (6, ' #\\')), (diff, '#', (6, '# \t')),
        (diff, '### a', (5, ' #\\a'), '\nb'),
        (diff, '# a ', Rep('#', 1, 30), (1, ' a\\')),
        (diff, 'a\n', Rep(' ', 0, 4), (6, '= \ta'), '\nb'),
        (diff, 'a\n', Rep(' ', 0, 4), (6, '- \ta'), '\nb'),
        (diff, 'a\n', (1, '=-'), (4, '=- \t'), '\n', (2, 'b=-'), '\n'),
        (diff, (3, ' a\t'), 'a', (3, ' \\\t'), '\n===\n'),
        (diff, 'a', (2, ' \\'), '\nb', (2, ' \\'), '\n---\n'),
        (diff, (4, ' \t'), 'a\n', (3, ' \t'), '===\n'),
        (diff, ['- a\n', '> a\n', '1. a\n', '    a\n', '```\na\n', '<div>\n',
                '# a\n', '***\n', '[a]: /u\n', '[a]: /u\na\n', '\n',
                'a\n\n', '- a\n  b\n', '> a\n> b\n'],
         Rep(' ', 0, 4), ['=', '==', '---', '-', '- -', '***', '* * *',
                          '# b', '#b', '___'], '\n'),
        (diff, ['- ', '> ', '1. ', '- > '], (2, '#-=*_'), (2, '#- *'),
         (2, ' a-*'), '\n'),
        (diff, (7 if q else 9, '- \n')), (diff, (7 if q else 9, '* \n')),
        (diff, (7 if q else 9, '_ \ta')), (diff, (6, '-*_ ')),
        (diff, (7, '=a\n ')), (diff, (7, '-a\n ')), (diff, (6, '#a\n \\')),
        (diff, Rep(' ', 0, 5), (6, '* \t'), '\n'),
        (diff, (1, '-*_'), Rep(' ', 0, 9), (1, '-*_'), Rep(' ', 0, 5),
         (1, '-*_a'), (1, '\t \n'), 'b'),
        (diff, '# ', ['*a*', '`#`', '[a](b)', '<b>', '&amp;', '\\#', 'a\\',
                      'a  '], (2, ' #\\'), '\nb'),
        (diff, ['a', '`a\nb`', '*a\nb*', 'a\\', '<a\nb>'], '\n',
         (2, '=- '), '\n'),
        (diff, 'a\n' * 40, (2, '=-a'), '\nb'),
    ] + blockcross(
        ['# a #\n', 'a\nb\n===\n', '- - -\n', '***\n', 'a\n-\n', '### \n']) + [
        (diff, Times('#', *BIG), ['', ' ', '\t', ' a', 'a'], '\n'),
        (diff, '## a ', Times('#', *BIG), ['', ' ', 'b', '\\', ' b'], '\n'),
        (diff, '#', Times(' ', *BIG), ['', 'a', 'a #', '#'], Times(' ', 0, *BIG[:16]),
         '\n'),
        (diff, 'a\n', Times(['=', '-'][0], *BIG), ['', ' ', '\t', 'a', ' ='], '\n'),
        (diff, 'a\n', Times('-', *BIG), ['', ' ', '\t', 'a', ' -'], '\n'),
        (diff, ['a\n', ''], Times(['* '][0], *BIG), ['', '*', 'a', '-'], '\n'),
        (diff, ['a\n', ''], Times('_', *BIG), ['', ' _', 'a', '-'], '\n'),
        (diff, Times('a\n', *BIG[:24]), ['=', '-'], '\n'),
        (diff, 'a\n=', Times(' ', *BIG), ['', '=', 'b'], '\n')]
