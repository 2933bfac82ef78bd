"""Lists."""
from lib import *

BOUNDS = ('list numbers of 1 to 10 digits, any digits; lists of up to 4 items '
          'with every kind of separation between and within items; every pair '
          'of markers; up to 7 characters over the alphabets of markers, '
          'blanks and indentation; 1 or 2 arbitrary characters in about 40 '
          'contexts')
BOUNDS += OF_BLOCKS % '7' + \
    OF_MANY
OUTSIDE = ('longer lists; longer arbitrary contents')


def start(T, n):
    """Ordered lists start with the number of their first item."""
    s = T.hole(n, '0123456789')
    d = T.pick('.', ')')
    rest = T.pick('7', '1', '0')
    got = html(T, s + d + ' a\n' + rest + d + ' b\n')
    if n > 9:
        T.eq(got, '<p>' + s + d + ' a\n' + rest + d + ' b</p>\n'
             if rest != '1' else
             '<p>' + s + d + ' a</p>\n<ol>\n<li>b</li>\n</ol>\n',
             'more than nine digits')
    else:
        k = int(s)
        a = '' if k == 1 else ' start="' + str(k) + '"'
        T.eq(got, '<ol' + a + '>\n<li>a</li>\n<li>b</li>\n</ol>\n',
             'start number')
    # only lists that start with 1 interrupt a paragraph
    got = html(T, 'p\n' + s + d + ' a\n')
    if n <= 9 and int(s) == 1:
        T.eq(got, '<p>p</p>\n<ol>\n<li>a</li>\n</ol>\n', 'interrupts')
    else:
        T.eq(got, '<p>p\n' + s + d + ' a</p>\n', 'does not interrupt')


def tight(T, k):
    """A list is loose iff blank lines separate items or children."""
    out = ''
    want = ''
    loose = False
    bits = []
    mark = T.pick('-', '1.', '+')
    for i in range(k):
        b = T.choose(3)
        bits.append(b)
        out = out + mark + ' a%d\n' % i
        if b == 1 and i < k - 1:
            out = out + '\n'
            loose = True
        elif b == 2:
            out = out + '\n' + ' ' * (len(mark) + 1) + 'b\n'
            loose = True
    for i in range(k):
        b = bits[i]
        ps = ['a%d' % i] + (['b'] if b == 2 else [])
        if loose:
            want += '<li>\n' + ''.join(
                ['<p>' + p + '</p>\n' for p in ps]) + '</li>\n'
        else:
            want += '<li>' + ps[0] + '</li>\n'
    tag = 'ol' if mark == '1.' else 'ul'
    T.eq(html(T, out), '<' + tag + '>\n' + want + '</' + tag + '>\n',
         'tight and loose lists')


def nest(T, k):
    """Nested items: k levels, any mixture of markers."""
    out = ''
    ind = ''
    want = ''
    tail = ''
    for i in range(k):
        m = T.pick('-', '1)', '+  ')
        out = out + ind + m + ' a\n'
        ind = ind + ' ' * (len(m) + 1)
        tag = 'ol' if m == '1)' else 'ul'
        want += '<' + tag + '>\n<li>a'
        if i < k - 1:
            want += '\n'
        tail = '</li>\n</' + tag + '>\n' + tail
    T.eq(html(T, out), want + tail, 'nested lists')
    T.eq(html(T, out + '\n\nz\n'), want + tail + '<p>z</p>\n',
         'text after nested lists')


def between(T, n):
    """every two constructs in an item, or in two, with and without a blank
    line between them, on every level"""
    a = T.pick(*PIECES)
    b = T.pick(*PIECES) if n == 1 else T.pick('a\n', '- a\n', '# a\n')
    gap = T.pick('', '\n')
    k = T.choose(4)
    if k == 0:
        s = held(T, a + gap + b, ('- ', '  '))
    elif k == 1:
        s = held(T, a, ('- ', '  ')) + gap + held(T, b, ('- ', '  '))
    elif k == 2:
        s = held(T, held(T, a, ('- ', '  ')) + gap + b, ('1. ', '   ')) + \
            gap + '2. c\n'
    else:
        s = held(T, held(T, a + gap, ('- ', '  ')) + b, ('> ', '> '))
    if n == 2:
        s = held(T, 'x\n' + s, ('* ', '  ')) + gap + held(T, s, ('* ', '  '))
    both(T, s, None)


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q, None, 2) + \
        drops(q, None, 1, (9, 10, 12))


def own(tier):
    q = tier == 'quick'
    return [
        (start, 1), (start, 2), (start, 8), (start, 9), (start, 10),
        (tight, 3 if q else 5), (nest, 4 if q else 6),
        (diff, '- ', 1, '\n-', 2), (diff, '1', 1, ' a\n', 1, '. b'),
        (diff, '- a\n', 2, ' b'), (diff, '1. a\n', 3, 'b'),
        (diff, (7 if q else 8, '-a\n ')), (diff, (6 if q else 7, '-+\n a')),
        (diff, (6 if q else 8, '1.)\n ')), (diff, (5, '*-+\na ')),
        (diff, '- a\n', (7 if q else 8, '- \nb')),
        (diff, '- a\n\n', (6, '- \nb')),
        (diff, '1. a\n', (6, '12.) \n')),
        (diff, ['-', '+', '*', '1.', '1)'], ' a\n', (3, ' \n'),
         ['-', '+', '*', '2.', '2)', '-b', '+b'], (1, ' \n\t'), 'c\n',
         (2, ' \n'), ['-', '*', '3.', '3)'], ' d'),
        # tightness through nesting, blank lines in odd places
        (diff, '- a\n', (2, ' \n'), '  - b\n', (3, ' \n'), '  - c\n',
         (2, ' \n'), '- d\n'),
        (diff, '- a\n  - b\n', (4, ' \n'), '    c\n', (2, ' \n'), '- d'),
        (diff, '- a\n', (2, ' \n'), '  > b\n', (3, ' \n>'), '- c'),
        (diff, '- ```\n', (2, ' \n'), '  b\n', (2, ' \n'), '  ```\n',
         (2, ' \n'), '- c'),
        (diff, '- a\n', (1, ' \n'), '  # b\n', (1, ' \n'), '  c\n',
         (1, ' \n'), '- d'),
        (diff, '- a\n', (1, '\n '), '  [b]: /u\n', (1, ' \n'), '- c'),
        (diff, '- [b]: /u\n', (1, '\n '), '- c\n', (1, ' \n'), '  d'),
        (diff, '- <div>\n', (2, ' \n'), '- b\n', (2, ' \n'), '- ***'),
        (diff, '-\n', (2, ' \n-'), '- a\n', (2, ' \n'), '-\n', (1, ' \n'),
         '- b'),
        (diff, '> - a\n', (3, '> \n'), '> - b\n', (3, '> \n'), '- c'),
        (diff, '1. - a\n', (3, ' \n'), '   - b\n', (3, ' \n'), '2. c'),
        (diff, '- a\n- b\n', (4, ' \n'), 'c\n', (2, ' \n'), '- d'),
        (diff, '- a\n\n\n', (4, ' \n'), 'b\n\n', (3, ' '), '- c'),
        (diff, '- a\n', ['', '\n', '\n\n', '\n\n\n'], (3, ' -'),
         ['b', '- b', '1. b', '<!-- -->', '    b', '> b'],
         ['\n', '\n\n'], (2, ' -'), ' c'),
        # what separates lists
        (diff, '- a\n', ['<!-- -->', '***', '# b', 'b', '> b', '\nb', '    c',
                         '- - -', '---', '[a]: /u', '```\n```'],
         ['\n', '\n\n'], (2, ' -'), ' c'),
        # lists and paragraphs
        (diff, 'p\n', ['-', '*', '+', '1.', '1)', '2.', '0.', '01.', '10.',
                       '-\n', '1.\n'], (2, ' \na'), 'b'),
        (diff, '- p\n', ['-', '*', '1.', '2.', '14)', '  -', '  1.', '  2.',
                         '     -'], (2, ' \na'), 'b'),
        (diff, (1, '-+*'), (1, '-+*'), (1, ' \n'), (1, '-+* '), 'a'),
        # indentation of siblings
        (diff, '- a\n', Rep(' ', 0, 5), '- b\n', Rep(' ', 0, 6), '- c\n',
         Rep(' ', 0, 7), '- d'),
        (diff, '1. a\n', Rep(' ', 0, 5), '2. b\n', Rep(' ', 0, 7), '3. c'),
        (diff, '- a\n\n', Rep(' ', 0, 6), '- b\n\n', Rep(' ', 0, 7), 'c'),
        (diff, ' - a\n', Rep(' ', 0, 5), '+ b\n', Rep(' ', 0, 6), '+ c'),
        # many items
        (diff, '- a\n' * 30, (3, ' \n-'), 'b\n', '- c\n' * 12),
        (diff, ''.join(['%d. a\n' % i for i in range(7, 30)]), (2, '\n '),
         '5. b'),
        (diff, ''.join([' ' * (2 * i) + '- a\n' for i in range(12)]),
         (3, ' \n'), Rep(' ', 18, 30), ['- b', 'b']),
    ] + blockcross(
        ['- a\n- b\n', '1. a\n2. b\n', '- a\n\n- b\n', '- # a\n  b\n',
         '0) a\n\n   b\n', '+ ***\n\n+ b\n', '- a\n  - b\n\n- c\n']) + [
        (between, 1), (between, 2),
        (diff, Times('- a\n', *BIG[:24]), ['\n', ''], ['- b', '+ b', 'b'], '\n'),
        (diff, Times('1. a\n\n', *BIG[:20]), ['- b', '1) b', '2. b', '    b']),
        (diff, Times('- ', *BIG[:20]), 'a\n', ['', '\n'], Times('  ', 0, *BIG[:20]),
         '- b\n'),
        (diff, '- a\n', Times('\n', *BIG[:24]), ['- b', '  b', '      b', 'b']),
        (diff, ['- ', '1. '], 'a\n', Times('b\n', *BIG[:24]), ['\n', ''], '- c')]
