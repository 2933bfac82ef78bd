"""Code blocks are verbatim."""
from lib import *

BOUNDS = ('contents of up to 4 arbitrary characters (5 thorough) or 5-8 '
          'characters over small alphabets; fences of 1 to 12 characters, '
          'indentations 0 to 9; contexts listed in checks/c09.py')
BOUNDS += OF_BLOCKS % '5' + \
    OF_MANY
OUTSIDE = 'longer contents (lines are handled one by one)'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def verbatim(T, n, ch, parts):
    """Lines between fences, none of them a closing fence, are the code."""
    s = doc(T, parts)
    T.assume('\r' not in s and '\0' not in s and ch not in s)
    m = T.choose(n) + 3
    f = ch * m
    want = '<pre><code>' + esc(s) + '\n</code></pre>\n'
    T.eq(html(T, f + '\n' + s + '\n' + f + '\n'), want, 'fenced code')
    T.eq(html(T, f + '\n' + s + '\n' + f + ch + '  '), want,
         'longer closing fence')
    w = want.replace('<code>', '<code class="language-x&amp;y">')
    T.eq(html(T, f + ' x&amp;y z\n' + s + '\n' + f), w, 'info string')
    # a shorter fence does not close
    if m > 3:
        t = s + '\n' + ch * (m - 1)
        T.eq(html(T, f + '\n' + t + '\n' + f),
             '<pre><code>' + esc(t) + '\n</code></pre>\n', 'shorter fence')
    # unclosed: to the end of the document
    if len(lines_of(s)) and len(lines_of(s)[-1]):
        T.eq(html(T, f + '\n' + s + '\n'), want, 'unclosed')


def indented(T, *parts):
    """Lines indented by four columns are code, verbatim beyond those."""
    s = doc(T, parts)
    T.assume('\r' not in s and '\0' not in s)
    ls = lines_of(s)
    # the first and last lines are not blank
    T.assume(len(ls) > 0 and len(ls[0].strip(' \t')) > 0 and
             len(ls[-1].strip(' \t')) > 0)
    want = '<pre><code>'
    for ln in ls:
        want = want + esc(ln) + '\n'
    want = want + '</code></pre>\n'
    for pre in ('    ', '\t', '  \t', ' \t'):
        T.eq(html(T, ''.join([pre + ln + '\n' for ln in ls])), want,
             'indented code')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q, None, 2) + \
        drops(q, None, 1, (2, 3, 4))


def own(tier):
    q = tier == 'quick'
    sp = ' \t'
    return blockcross([
        '    a\n', '```\na\n```\n', '~~~\na', '``` a\n\tb\n\n', '\ta\n\n     b\n']) + [
        (diff, Times('`', *BIG[:15]), '\na\n', Times('`', *BIG[:15]),
         (1, ' \ta'), '\nb'),
        (diff, Times('~', *BIG[14:]), '\na\n', Times('~', 3, *BIG[14:]), '\nb'),
        (diff, Times('`', *BIG[14:]), ' a\n', Times('`', 3, *BIG[14:]), '\nb'),
        (diff, Times('`', 3, 4, *BIG[8:]), '\n', Times('~', 3, 4, *BIG[8:]),
         '\nb'),
        (diff, Times('~', 3, 4, *BIG[8:]), '\n', Times('`', 3, 4, *BIG[8:]),
         '\nb'),
        (verbatim, 4, '~', [(0, 3 if q else 4, None)]),
        (verbatim, 4, '`', [(0, 3 if q else 4, None)]),
        (verbatim, 2, '`', [(5 if q else 7, 'a\n \t')]),
        (indented, (1, 3 if q else 4, None)),
        (indented, (5 if q else 7, 'a\n \t')),
        (diff, '    ', 2, '\n', 1, 'b'),
        (diff, '```\n', 3, '\n```\nb'),
        (diff, '~~~', 3, '\nb\n~~~\n'),
        (diff, '```', 3, '\nb\n```\n'),
        (diff, 1, '``', 2, '\na'),
        # lengths of fences
        (diff, Rep('`', 1, 9), '\na\n', Rep('`', 1, 11), '\nb\n'),
        (diff, Rep('~', 1, 9), '\na\n', Rep('~', 1, 11), '\nb\n'),
        (diff, '`````````` x\na\n', Rep('`', 8, 14), (2, ' `a\t'), '\nb\n'),
        (diff, '```\na\n', (6, '`~ \n'), '\nb'),
        (diff, '~~~~\n', (7, '~ \n'), '\nb'),
        # indentation of opening fence, contents, closing fence
        (diff, Rep(' ', 0, 4), ['```', '~~~~'], '\n', Rep(' ', 0, 5), 'a\n',
         Rep(' ', 0, 5), ['```', '~~~~'], '\nb'),
        (diff, Rep(' ', 1, 3), '```\n', (4, ' \ta'), 'b\n', (4, ' \t'),
         'c\n```\n'),
        (diff, '- ', Rep(' ', 0, 3), '```\n', (6, ' \ta'), 'b\n', '  ```\n'),
        (diff, '> ~~~\n> ', (4, ' \ta~'), '\n', (3, '> \n'), 'b\n~~~'),
        # info strings
        (diff, ['```', '~~~'], (5, ' a`~\t'), '\nb\n'),
        (diff, '~~~ ', (2, '\\&;a'), ['&amp;', '&#97;', '\\*', 'b']
         , (1, ' \\&;"<'), '\nb\n'),
        (diff, '``` ', 2, 'x ', 1, '\n```'),
        # not interrupted by anything, interrupting a paragraph
        (diff, 'a\n', Rep(' ', 0, 4), ['```', '~~~', '``', '~~'], '\n',
         ['b', '# b', '> b', '- b', '<div>', '***', ''], '\n',
         ['```', '~~~', ''], '\nc'),
        (diff, 'a\n    b\n', (5, ' \nc')),
        (diff, ['# a\n', '- a\n\n', '> a\n', '***\n', '<div>\n\n',
                '```\n```\n', '[a]: /u\n', 'a\n=\n'], (6, ' \tb')),
        # blank lines
        (diff, '    a\n', (5, ' \t\n'), '    b\n', (3, ' \t\n'), 'c'),
        (diff, (3, ' \t\n'), '\t\ta\n', (5, ' \t\n'), ' \tb\n'),
        (diff, '```\n', (6, ' \t\n'), '```\n'),
        (diff, '- a\n\n', (7, ' \t'), 'b\n', (5, ' \n'), 'c'),
        (diff, '1. ', (6, ' \t'), 'a\n', (7, ' '), (2, '\n \t'), 'b'),
        (diff, '>', (6, ' \t'), 'a\n>', (6, ' \t'), 'b'),
        # code text is not markup
        (diff, '    ', ['*a*', '[a](b)', '<b>', '&amp;', '\\*', '`a`',
                        '- a', '# a', '> a'], 2, '\n'),
        (diff, '~~~\n', ['*a*', '[a](b)', '<b>', '&amp;', '\\*', '`a`',
                         '- a', '# a', '> a', '```', '    a'], 2, '\n~~~'),
        (diff, '```\n' + 'x y\n' * 60, (3, ' a`\n'), '\n```\n'),
        (diff, '    ' + 'word ' * 300, (2, ' a\n'), '\n'),
    ]
