"""Paragraphs and line breaks."""
from lib import *

BOUNDS = ('paragraphs of 2 or 3 lines with 2 or 3 arbitrary characters at the '
          'ends of lines and the begins of lines; runs of 0 to 6 spaces and '
          'backslashes before a newline; up to 7 characters over the '
          'alphabets of blanks, newlines and letters')
BOUNDS += OF_BLOCKS % '5' + \
    OF_INLINES % '4' + \
    OF_MANY
OUTSIDE = ('longer arbitrary lines')


def breaks(T, k):
    """Lines of a paragraph: spaces around them go, two or more before the
    line ending or a backslash make it a hard break."""
    out = ''
    want = ''
    for i in range(k):
        lead = T.pick('', ' ', '   ', '     ', '\t') if i else \
            T.pick('', '  ')
        tail = T.pick('', ' ', '  ', '\\', '      ', '\t', ' \t', ' \\')
        out = out + lead + 'a' + tail + '\n'
        want += 'a'
        last = i == k - 1
        if tail == '\\' or tail == ' \\':
            want += tail if last else tail[:-1] + '<br />\n'
        elif tail[:2] == '  ' and not last:
            want += '<br />\n'
        elif not last:
            # a tab is not a space
            want += (tail if '\t' in tail else '') + '\n'
    T.eq(html(T, out), '<p>' + want + '</p>\n', 'line breaks')


def plain(T, n):
    """Text without markup characters is itself, escaped."""
    s = T.hole(n, cs_not('\n\r\0\\`*_[]<>&!'))
    T.eq(html(T, 'a' + s + 'b\n'),
         '<p>a' + s.replace('"', '&quot;') + 'b</p>\n', 'plain text')


def lazy(T, parts):
    """Paragraph continuation text: dropping the block markers before it
    changes nothing."""
    s = doc(T, parts)
    T.assume(s[0] not in ' \t\n' and s[-1] not in ' \t\n')
    # paragraph continuation text
    ks = kids(parse(T, 'a\n' + s))
    T.assume(len(ks) == 1 and ks[0].t == 'paragraph')
    for pre, cont in (('> ', '> '), ('- ', '  '), ('1. ', '   '),
                      ('> > ', '> > '), ('> - ', '>   '), ('- > ', '  > '),
                      ('- - ', '    ')):
        T.same(html(T, pre + 'a\n' + s + '\n'),
               html(T, pre + 'a\n' + cont + s + '\n'), 'lazy continuation')


LAZY = 'bcd,.;:()%$'


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q, None, 2) + \
        drops(q, None, 2, (0, 11, 12, 13, 15))


def own(tier):
    q = tier == 'quick'
    return [
        (breaks, 2), (breaks, 3), (plain, 3 if q else 5),
        (lazy, [(3 if q else 4, LAZY + '*_`[]!&')]),
        (lazy, [(1, LAZY), (4, LAZY + '-+=#> ')]),
        (diff, 3), (diff, 'a', 2, '\n', 1), (diff, 'a\n', 2, 'b'),
        (diff, 'a', 1, '\n', 1, 'b', 1),
        (diff, '\n', 2, 'a', 1), (diff, 'a ', 1, '\n\n', 1, 'b'),
        (diff, 'a', (6 if q else 8, ' \\\t\n'), 'b'),
        (diff, 'a', (6 if q else 8, ' \\\n'), 'b', (2, ' \\\n')),
        (diff, (6 if q else 7, 'a\n \t\\')), (diff, (7 if q else 9, 'a\n ')),
        (diff, (5 if q else 6, ' \n\x0b\x0c\x85\xa0\u2028a')),
        (diff, 'a', (3, ' \\\n'), ['*b', '`b', '[b](', '<b', '![b]('],
         (3, ' \\\n'), ['c*', 'c`', '/c)', 'c>']),
        (diff, ['*a', '**a', '[a', '_a', '![a', '~a'], (3, ' \\\n'),
         ['b*', 'b**', 'b](c)', 'b_', 'b~']),
        (diff, (1, ' #>-=+'), 'a\n', Rep(' ', 0, 6), (2, '#>-=1. a'), 'b'),
        (diff, 'a\n', Rep(' ', 0, 9), ['b', '> b', '# b', '- b', '1. b',
                                      '2. b', '***', '===', '---', '```',
                                      '<div>', '<i>', '[b]: /u', '+', '-',
                                      '\tb', '    - b'],
         ['', '\nc', '\n\nc']),
        (diff, ['> a\n', '- a\n', '> - a\n', '- > a\n', '> > a\n', '1. a\n',
                '> # a\n', '> ```\n', '>     a\n', '> a\n> ***\n', '> <i>\n',
                '- # a\n', '> [a]: /u\n'],
         Rep(' ', 0, 4), ['b', '> b', '- b', '# b', '===', '---', '    b',
                          '```', '<div>', '<i>', '1. b', '2. b', '\nb',
                          '>\nb', '-', '>'], '\n', ['c', '> c', '  c']),
        (diff, '> a\n', (6, '> \nb-')),
        (diff, '> 1. > a\n', (5, '> \nb'), 'c'),
        (diff, '- a\n', (6, '- \nb>')),
        (diff, (3, ' \t\n'), 'a', (3, ' \t\n'), 'b', (3, ' \t\n')),
        (diff, 'a\n', (2, ' \t'), '\n', (2, ' \t\n'), 'b\n', (3, ' \t\n'),
         'c'),
        (diff, 'word ' * 400, (2, ' \\\n'), 'b'),
        (diff, 'a\n' * 60, (3, ' \\\n'), 'b'),
        (diff, 'a' + ' ' * 40, (2, ' \n\\'), '\n', ' ' * 40, (1, ' b'), 'c'),
        (diff, 'a', Rep(' ', 0, 12), ['\n', '\\\n', '\t\n', '\n\n'],
         Rep(' ', 0, 12), 'b'),
    ] + blockcross(
        ['a\n', 'a  \nb\\\nc\n', 'a\n    b\n', '   a\n', 'a \n\n\n   b\n']) + \
        inlinecross(['a\nb', 'a  \nb', 'a\\\nb', '\n a']) + [
        (diff, ['a\n', '> a\n', '- a\n', '> - a\n', '- > a\n', '1. a\n'],
         Times(' ', *BIG), ['b', '> b', '- b', '# b', '===', '```', '<div>', '[a]: u'],
         '\n'),
        (diff, 'a', Times(' ', *BIG), ['\n', '\\\n', '\t\n', '\n\n'], 'b'),
        (diff, Times('a\n', *BIG[:24]), Times('\n', 0, 1, 2, 5), 'b'),
        (diff, Times('\n', *BIG[:24]), 'a', Times('\\', *BIG), '\nb'),
        (diff, 'a\n', Times('\t', *BIG[:8]), ['b', '> b', '- b'])]
