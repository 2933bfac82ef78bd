"""Block quote law."""
from lib import *

BOUNDS = ('every document of at most 3 characters (thorough: 4), any but tab '
          'and carriage return, and of 6 to 8 over small alphabets, every '
          'line prefixed by 0 or 3 spaces, > and a space or none; about 20 '
          'templates of documents with 1 or 2 arbitrary characters; quotes '
          'within quotes and list items')
BOUNDS += OF_BLOCKS % '5' + \
    OF_MANY
OUTSIDE = ('longer arbitrary documents; lines that begin with a tab')


def law(T, *parts):
    s = doc(T, parts)
    inner = html(T, s)
    ls = lines_of(s)
    T.assume(len(ls) > 0)
    for ind in INDENTS:
        for tight in (False, True):
            out = ''
            for ln in ls:
                if not tight:
                    out = out + ind + '> ' + ln + '\n'
                elif len(ln) == 0 or ln[0] != ' ':
                    out = out + ind + '>' + ln + '\n'
                else:
                    out = None
                    break
            if out is not None:
                T.eq(html(T, out),
                     '<blockquote>\n' + inner + '</blockquote>\n',
                     'quoting a document is not putting it in a quote')


INDENTS = ('', '   ')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + odds(q, None, 4) + \
        drops(q)


def own(tier):
    nl = cs_not('\t\r')
    if tier == 'quick':
        top = [
            (law, (1, 3, nl)),
            (law, (6, 'a\n ->')),
            (law, (7, 'a\n >')),
            (law, (6, '\n a`-')),
            (diff, '> ', 2, '\n', 1),
            (diff, (7, '>a\n ')),
            (diff, (6, '>a\n -')),
            (diff, (5, '>a\n `~')),
        ]
    else:
        top = [
            (law, (4, nl)),
            (law, (7, 'a\n ->')),
            (law, (8, 'a\n >')),
            (law, (7, '\n a`-')),
            (law, (8, '\n a`')),
            (diff, '> ', 2, '\n', 2),
            (diff, (9, '>a\n ')),
            (diff, (8, '>a\n -')),
            (diff, (7, '>a\n `~')),
            (diff, (7, '>a\n -1.')),
        ]
    return top + [
        (law, (1, '-*+1'), (1, '.) -'), (2, ' a\n'), 'b\n', (3, ' \n-'), 'c'),
        (law, '[a]: /u\n', (3, ' \n[a]'), '[a]'),
        (law, '```', (2, ' a`\n'), 'b\n', (4, '`\n ')),
        (law, '<div', (2, 'a>\n '), '\n', (3, 'a\n ')),
        (law, 'a\n', (2, '=- \n'), '\nb'),
        (diff, '> a\n', 3, '\n', 'b'),
        (diff, (6, '>a\n\t ')),
        (diff, '> > ', (3, 'a>\n '), '\n', (3, 'a> \n'), 'b'),
        (diff, '> ```\n', (3, '> \na'), 'b\n', (2, '>` \n'), '```'),
        (diff, '>     a\n', (5, '> \n'), 'b'),
        (diff, '> <div>\n', (3, '> \na'), 'b'),
        (diff, '> - a\n', (5, '> -\n'), 'b'),
        (diff, '- a\n', (5, '> -\n'), 'b'),
        (diff, '1. > a\n', (5, '> \n'), 'b'),
        (diff, '> a\n', (1, '=-*#+1'), (3, '=-* .)#\n'), '\nb'),
        (diff, '> # a\n', (3, '> \n'), 'b'),
        (diff, '> [a]: /u\n', (3, '> \n'), '"t"\n[a]'),
        (diff, (4, ' \t>'), 'a\n', (3, ' >'), 'b'),
        (diff, '>\t', (3, ' \ta'), 'a\n>', (4, ' \t'), 'b'),
    ] + blockcross(
        ['> a\n', '> a\n> b\n\n', '> # a\n>\n> b\n', '>>a', '> - a\n>\n> b\n']) + [
        (diff, Times('> ', *BIG[:24]), 'a\n', Times('>', 0, *BIG[:22]),
         (1, ' >\n'), 'b\n'),
        (diff, Times('>', *BIG[:24]), (1, ' \ta'), ['a', '# a', '- a'], '\n',
         Times('> ', *BIG[:24]), 'b'),
        (diff, '> a\n', Times(' ', *BIG), ['b', '> b', '# b', '- b'], '\n'),
        (diff, Times('> a\n', *BIG[:24]), (2, '> \nb'), 'c\n'),
        (diff, '>', Times(' ', *BIG[:14]), ['a', '# a', '- a', '> a'], '\n>',
         Times(' ', *BIG[:9]), ['b', '> b', '- b'])]
