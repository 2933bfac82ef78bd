"""Emphasis."""
from lib import *

BOUNDS = ('delimiter runs between 2 arbitrary characters (any Unicode scalar '
          'values); every text of 10 characters (thorough: 12) over * and a '
          'letter and 6 to 8 over other alphabets of delimiters, spaces, '
          'punctuation and brackets; runs of up to 8 against runs of up to 8 '
          '(thorough: 25)')
BOUNDS += OF_INLINES % '8' + \
    OF_MANY
OUTSIDE = ('longer mixtures of delimiters')


def simple(T, k, ch):
    """k on both sides of a word: strong emphasis for pairs, emphasis for
    the odd one, outermost."""
    n = T.choose(k) + 1
    s = T.hole(1) + T.hole(1)
    # a word of two characters that are not markup
    T.assume(s[0].isalnum() and s[1].isalnum())
    want = s
    for i in range(n // 2):
        want = '<strong>' + want + '</strong>'
    if n % 2:
        want = '<em>' + want + '</em>'
    T.eq(html(T, 'x ' + ch * n + s + ch * n + ' y'),
         '<p>x ' + want + ' y</p>\n', 'nested emphasis')
    w = ' x '
    T.eq(html(T, ch * n + s + ' ' + ch * n), '<p>' + ch * n + s + ' ' +
         ch * n + '</p>\n' if True else '', 'closer after a space')
    T.eq(html(T, 'z' + ch * n + s + ch * n + 'z'),
         '<p>z' + (want if ch == '*' else ch * n + s + ch * n) + 'z</p>\n',
         'intraword')


def flank(T, ch):
    """Left- and right-flanking, for any neighbours of a run."""
    a = T.hole(1, cs_not('\n\r\0\\`*_[]<>&! \t\x0b\x0c'))
    b = T.hole(1, cs_not('\n\r\0\\`*_[]<>&! \t\x0b\x0c'))
    R = T.ref
    ws = R.refsets.UWS
    pu = R.refsets.UPUNCT
    aw, bw = a in ws, b in ws
    ap, bp = a in pu, b in pu
    left = not bw and (not bp or aw or ap)
    right = not aw and (not ap or bw or bp)
    if ch == '*':
        can_open, can_close = left, right
    else:
        can_open = left and (not right or ap)
        can_close = right and (not left or bp)
    e = R.esc
    # an opener takes a sure closer, a closer a sure opener
    got = html(T, 'q' + a + ch + b + 'q.' + ch + ' q')
    w = ('<em>' + e(b) + 'q.</em> q') if can_open else \
        (ch + e(b) + 'q.' + ch + ' q')
    T.eq(got, '<p>q' + e(a) + w + '</p>\n', 'can open')
    got = html(T, 'q ' + ch + 'q' + a + ch + b + 'q')
    w = ('<em>q' + e(a) + '</em>') if can_close else \
        (ch + 'q' + e(a) + ch)
    T.eq(got, '<p>q ' + w + e(b) + 'q</p>\n', 'can close')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q) + \
        drops(q, None, 3, (15,))


def own(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        (simple, 6 if q else 12, '*'), (simple, 6 if q else 12, '_'),
        (flank, '*'), (flank, '_'),
        (diff, '*', 3, '*'), (diff, '_', 2, '_', 1), (diff, 1, '**', 1, '**', 1),
        (diff, 1, '_', 1, '_', 1), (diff, '*', 1, '_', 1, '*', 1, '_'),
        (diff, (10 + 2 * d, '*a')), (diff, (10 + 2 * d, '_a')),
        (diff, (8 + d, '*a ')), (diff, (8 + d, '_a ')),
        (diff, (7 + d, '*_a')), (diff, (7 + d, '*a.')), (diff, (7 + d, '_a.')),
        (diff, (6 + d, '*_a ')), (diff, (6 + d, '*_a.')),
        (diff, (6, '*a[]')), (diff, (6, '*`a ')), (diff, (6, '*a\\ ')),
        (diff, (6, '_a(* ')), (diff, (5, '*\u2014\xa0a ')),
        (diff, (5, '_\u20ac\u00bfa ')), (diff, (5, '*\U00010100a\u3000')),
        # runs of many lengths: the rule of three, nesting, leftovers
        (diff, Rep('*', 1, 8), 'a', Rep('*', 1, 8), 'b', Rep('*', 0, 8)),
        (diff, Rep('_', 1, 7), 'a', Rep('_', 1, 7), ' b', Rep('_', 0, 7)),
        (diff, Rep('*', 1, 5), 'a ', Rep('*', 1, 5), 'b', Rep('*', 1, 5),
         'c', Rep('*', 0, 5)),
        (diff, Rep('*', 1, 4), 'a', Rep('_', 1, 4), 'b', Rep('*', 1, 4), 'c',
         Rep('_', 1, 4)),
        (diff, 'a', Rep('*', 1, 4), 'b', Rep('*', 1, 4), 'c',
         Rep('*', 1, 4), 'd', Rep('*', 1, 4), 'e'),
        (diff, '*a **b', Rep('*', 1, 5), (1, ' c'), Rep('*', 1, 5), 'd',
         Rep('*', 1, 3)),
        (diff, 'a**"', (2, '*"b'), '"**', (1, 'a "'), '*c*'),
        (diff, '*a _b', (2, '*_ '), 'c* d_', (1, '* ')),
        (diff, '**a*', (3, '*_ a'), '**b*'),
        (diff, '*foo', ['[', '![', '`', '<'], (2, '*a'), [']', '](u)', '`', '>'],
         (2, '*b'), '*'),
        (diff, '[*a', (3, '*_]'), '](b)', (2, '*_'), 'c*'),
        (diff, '*[a', (2, '*]'), '](b*', (1, '*)'), ')', (1, '*'), 'c'),
        (diff, '*a\n', (3, '*_ \n'), 'b*', (2, ' *c')),
        (diff, ['# ', '- ', '> '], '*a', (2, '* _'), 'b', (2, '*_'), '\n**c*'),
        (diff, '*a ' * 12, (2, '*b'), ' c*' * 5),
        (diff, 'a**b_c' * 5, (3, '*_ '), 'd_e*' * 4),
        (diff, '***a ' * 4, (2, '*_'), 'b** c* d***', (2, '*e')),
        (diff, Rep('*', 20, 23), 'a', Rep('*', 18, 25)),
        (diff, '*a*', (2, '*_b'), '*c*', (2, '_*b'), '__d__'),
    ] + inlinecross(
        ['*a*', '**a**', '_a_', '***a**b*', '*a', 'a*', '__a _b__', '*a **b*']) + [
        (pairs, '*a*', 'b*'), (pairs, '**', 'a**'), (pairs, '_a', '_'),
        (diff, Times('*', *BIG[:24]), 'a', Times('*', *BIG[:24]), ['', 'b*', '_']),
        (diff, Times('_', *BIG[:20]), 'a', Times('_', *BIG[:20]), ['', ' b_', '*']),
        (diff, Times('*', *BIG[:12]), 'a', Times('*', *BIG[:12]), 'b',
         Times('*', *BIG[:12])),
        (diff, Times('*a ', *BIG[:24]), Times('b* ', *BIG[:24])),
        (diff, Times('**a _b ', *BIG[:14]), Times('c_ d** ', *BIG[:14]))]
