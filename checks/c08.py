"""List item law."""
from lib import *

BOUNDS = ('documents of up to 3 arbitrary characters (quick) or 4 '
          '(thorough) and up to 7/8 characters over small alphabets placed '
          'in items with several markers, indentations and paddings; '
          'templates of items with holes, as listed in checks/c08.py')
BOUNDS += OF_BLOCKS % '6' + \
    OF_MANY
OUTSIDE = 'longer contents; the interplay of more than the listed shapes'

MARKS = (('-', 1, 0), ('+', 4, 3), ('1.', 1, 2), ('123456789)', 2, 0),
         ('*', 3, 1), ('007)', 1, 0))


def law(T, *parts):
    """An item whose lines are those of a document, the first after the
    marker and the others indented by the marker's width, contains the
    blocks of the document."""
    s = doc(T, parts)
    ls = lines_of(s)
    T.assume(len(ls) > 0 and len(ls[0]) > 0 and ls[0][0] not in ' \t\x0b\x0c')
    want = tree(parse(T, s))[2]
    for mark, pad, ind in MARKS:
        if mark in '-*' and ls[0][0] == mark:
            continue            # may be a thematic break
        for blanks in (False, True):
            w = ' ' * (ind + len(mark) + pad)
            out = ' ' * ind + mark + ' ' * pad + ls[0] + '\n'
            for ln in ls[1:]:
                if blanks or len(ln) > 0:
                    out = out + w + ln + '\n'
                else:
                    out = out + ln + '\n'
            got = tree(parse(T, out))[2]
            T.require(len(got) == 1 and got[0][0] == 'list',
                      'a marker before a document makes a list')
            items = got[0][2]
            T.require(len(items) == 1 and items[0][0] == 'item',
                      'the list has one item')
            T.eq(items[0][2], want,
                 'the item contains the blocks of the document')
            f = got[0][1]
            if mark in '-+*':
                T.same([f[0], f[2]], ['bullet', mark], 'bullet list data')
            else:
                T.same([f[0], f[2]], ['ordered', int(mark[:-1])],
                       'ordered list data')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q, None, 2) + \
        drops(q, None, 2)


def own(tier):
    nl = cs_not('\t\r')
    if tier == 'quick':
        top = [
            (law, (1, 3, nl)),
            (law, (5, 'a\n ->')),
            (law, (6, 'a\n 1.')),
            (law, (6, 'a\n `')),
            (diff, '- ', 2, '\n', 1),
            (diff, '1. ', 3),
            (diff, (7, '-a\n ')),
            (diff, (6, '-a\n >')),
            (diff, (6, '1.)\n a')),
        ]
    else:
        top = [
            (law, (1, 4, nl)),
            (law, (6, 'a\n ->')),
            (law, (7, 'a\n 1.')),
            (law, (7, 'a\n `')),
            (diff, '- ', 2, '\n', 2),
            (diff, '1. ', 4),
            (diff, (9, '-a\n ')),
            (diff, (8, '-a\n >')),
            (diff, (8, '1.)\n a')),
            (diff, (7, '-1.\n a\t')),
        ]
    sp = ' \t'
    return top + [
        (law, 'a\n', (3, ' \n'), '> ', (2, 'b\n '), 'c'),
        (law, '```\n', (4, ' a`\n'), '```\n'),
        (law, '<div>\n', (3, ' \na'), 'b\n'),
        (law, '# a\n', (3, ' \n='), 'b\n'),
        (law, 'a\n', (3, '= -'), '\nb\n'),
        (law, '[a]: /u\n', (3, ' \n[a]'), '[a]\n'),
        (law, 'a\n\n', (3, '    '), '    b\n'),
        (law, '>', (3, ' >\n'), 'a\n', (2, '> \n'), 'b\n'),
        (law, '- a\n', (4, ' \n-'), 'b\n'),
        (law, '1) a\n', (4, ' \n'), 'b\n'),
        # widths: marker indentation, padding, continuation indentation
        (diff, Rep(' ', 0, 4), ['-', '+', '*', '1.', '12)', '012345678.', '0123456789.',
                             '00.'],
         Rep(' ', 0, 7), 'a\n', Rep(' ', 0, 14), ['b', '- b', '> b'], '\n'),
        (diff, Rep(' ', 0, 4), ['-', '7.', '12)', '07.', '123456789.'],
         Rep(' ', 0, 6), 'a\n\n', Rep(' ', 0, 16), ['b', '- b', '1. b'],
         '\n'),
        (diff, ['-', '1.'], (0, 6, sp), '\n', (0, 6, sp), 'a\n'),
        (diff, ['-', '1.'], (0, 2, ' '), '\n', (0, 2, sp), '\n',
         Rep(' ', 0, 4), 'a\n'),
        (diff, ['-', '10)'], (1, 3, sp), 'a\n', (0, 3, sp), 'b\n\n',
         (0, 5, sp), 'c'),
        (diff, 'a\n', Rep(' ', 0, 4), ['-', '*', '1.', '1)', '2.', '10.',
                                      '01.', '1234567890.'],
         (0, 2, ' \t'), ['', 'b'], '\n'),
        (diff, '- a\n', Rep(' ', 0, 5), ['b', '> b', '# b', '```', '- b',
                                        '<div>', '***', '==='], '\n',
         Rep(' ', 0, 3), 'c\n'),
        (diff, '- - 1. ', (3, ' \na'), 'b\n', Rep(' ', 0, 8), 'c'),
        (diff, '- ```\n', (5, ' a\n`'), '\n  ```\nb'),
        (diff, '- a\n\n', (6, ' \n-b'), 'c'),
        (diff, '1.  a\n\n', (7, ' \n'), 'b\n', Rep(' ', 0, 6), '> c'),
        (diff, '-', (1, sp), '   ', (2, sp), 'a\n', (3, sp), '  ', 'b'),
    ] + blockcross(
        ['- a\n', '1. a\n\n   b\n', '10)    a\n', '-\n  a\n', '+     a\n\n',
         '*\ta\n']) + [
        (diff, Times('- ', *BIG[:24]), 'a\n', Times('  ', 0, *BIG[:24]),
         ['b', '- b'], '\n'),
        (diff, Times('1. ', *BIG[:14]), 'a\n\n', Times('   ', 0, *BIG[:14]),
         ['b', '2. b'], '\n'),
        (diff, ['-', '1.', '12345)', '123456789.'], Times(' ', *BIG[:18]), 'a\n',
         ['', '\n'], Times(' ', *BIG[:20]), ['b', '- b'], '\n'),
        (diff, ['-', '1.', '12345)', '12345678.', '123456789)'], ['', ' ', '\t'], '\n',
         Times(' ', *BIG[:18]), ['b', '- b', '    b'], '\n')]
