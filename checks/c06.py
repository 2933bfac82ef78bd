"""Tabs behave as spaces up to the next tab stop of 4 columns."""
from lib import *

BOUNDS = ('every line that begins with up to 6 (thorough: 8) characters out '
          'of tab, space and the markers > - + 1. 2), after 0 to 2 lines of '
          'about 40 contexts; 1 arbitrary character next to tabs')
BOUNDS += OF_BLOCKS % '18'
BOUNDS += OF_MANY
OUTSIDE = 'longer runs of mixed indentation and markers'


def expand(s, col=0):
    """tabs of a line as spaces"""
    out = ''
    for c in s:
        if c == '\t':
            k = 4 - col % 4
            out = out + ' ' * k
            col += k
        else:
            out = out + c
            col += 1
    return out


def lead(s):
    i = 0
    while i < len(s) and s[i] in ' \t':
        i += 1
    return s[:i]


def norm(s):
    """every run of tabs and spaces as one space"""
    return s and ' '.join([x for x in s.replace('\t', ' ').split(' ') if x])


def cmp(T, a, b, width):
    """two trees, one of tabs and one of spaces; the only code line that
    differs is the last, which ends in column width - 1"""
    T.eq(a.t, b.t, 'kind of block')
    if a.t == 'code_block':
        x = a.literal.split('\n')
        y = b.literal.split('\n')
        T.eq(len(x), len(y), 'lines of code')
        T.same(a.info, b.info, 'info')
        for i in range(len(x)):
            if i < len(x) - 2:
                T.same(x[i], y[i], 'earlier code')
            else:
                T.same(norm(x[i].lstrip(' \t')), norm(y[i].lstrip(' \t')),
                       'code')
                if x[i].strip(' \t'):
                    start = width - len(y[i])
                    T.eq(expand(x[i], start), y[i], 'indentation of code')
        return
    ka = kids(a)
    kb = kids(b)
    T.eq(len(ka), len(kb), 'children')
    T.same(norm(a.literal), norm(b.literal), 'text')
    T.same(a.level, b.level, 'level')
    if a.t == 'list':
        for k in ('type', 'tight', 'start', 'bullet_char', 'delimiter'):
            T.same(a.list_data.get(k), b.list_data.get(k), 'list')
    for i in range(len(ka)):
        cmp(T, ka[i], kb[i], width)


def stops(T, ctx, *parts):
    """replacing the tabs before the text by spaces changes nothing"""
    pre = doc(T, parts)
    T.assume('\t' in pre)
    end = T.pick('a', '# a', '``` a') if len(parts) == 1 and \
        not ctx else 'a'
    line = pre + end
    wide = expand(pre) + end
    a = parse(T, ctx + line)
    b = parse(T, ctx + wide)
    T.docs.pop()
    cmp(T, a, b, len(wide))
    T.observe(T.pkg.HtmlRenderer().render(a))


def kept(T):
    """tabs in the text itself stay tabs"""
    t = T.pick('\t', '\t\t', ' \t', '\t ', ' \t ')
    c = T.hole(1, 'bx9')
    a = 'a' + t + c
    T.eq(html(T, a), '<p>' + a + '</p>\n', 'text')
    T.eq(html(T, '# ' + a), '<h1>' + a + '</h1>\n', 'heading')
    T.eq(html(T, '`' + a + '`'), '<p><code>' + a + '</code></p>\n', 'code')
    T.eq(html(T, '    ' + a), '<pre><code>' + a + '\n</code></pre>\n',
         'indented code')
    T.eq(html(T, '\t' + a), '<pre><code>' + a + '\n</code></pre>\n',
         'indented code')
    T.eq(html(T, '\t' + t + c), '<pre><code>' + t + c + '\n</code></pre>\n',
         'tab after the indentation')
    T.eq(html(T, '```\n' + t + a + '\n'), '<pre><code>' + t + a +
         '\n</code></pre>\n', 'fenced code')
    T.eq(html(T, '<div>' + t + c + '\n' + t + c), '<div>' + t + c + '\n' + t
         + c + '\n', 'HTML')
    T.eq(html(T, '- ' + a), '<ul>\n<li>' + a + '</li>\n</ul>\n', 'item')
    T.eq(html(T, '[x](u "' + a + '")'), '<p><a href="u" title="' + a +
         '">x</a></p>\n', 'title')
    T.eq(html(T, 'x<a' + t + 'b="' + t + '">'), '<p>x<a' + t + 'b="' + t +
         '"></p>\n', 'tag')


def columns(T, k):
    """a marker, k columns of white space: the content starts there, or it
    is indented code"""
    m = T.pick('-', '*', '1.', '99)', '>')
    ws = T.hole(k, ' \t')
    start = len(m)
    w = len(expand(m + ws)) - start
    got = html(T, m + ws + 'a\n')
    if m == '>':
        inner = '<blockquote>\n%s</blockquote>\n'
        # one column belongs to the marker
        if w >= 5:
            body = '<pre><code>' + rest(m + ws, start + 1) + 'a\n' + \
                '</code></pre>\n'
        else:
            body = '<p>a</p>\n'
    else:
        tag = 'ul' if len(m) == 1 else 'ol'
        inner = '<' + tag + (' start="99"' if m == '99)' else '') + \
            '>\n<li>%s</li>\n</' + tag + '>\n'
        if w >= 5:
            body = '\n<pre><code>' + rest(m + ws, start + 1) + 'a\n' + \
                '</code></pre>\n'
        else:
            body = 'a'
    T.eq(got, inner.replace('%s', body), 'columns after a marker')
    if m == '>' or w >= 5:
        return
    # the next line belongs to the item iff it reaches that column
    w2 = T.choose(8)
    pad = T.pick(' ' * w2, '\t' * (w2 // 4) + ' ' * (w2 % 4))
    got = html(T, m + ws + 'a\n\n' + pad + 'b\n')
    need = start + w
    if w2 >= need:
        body = '\n<p>a</p>\n' + (
            '<p>b</p>\n' if w2 - need < 4 else
            '<pre><code>' + ' ' * (w2 - need - 4) + 'b\n</code></pre>\n')
        T.eq(got, inner.replace('%s', body), 'continuation')
    else:
        T.eq(got, inner.replace('%s', 'a') + (
            '<p>b</p>\n' if w2 < 4 else '<pre><code>' + ' ' * (w2 - 4) +
            'b\n</code></pre>\n'), 'no continuation')


def rest(line, col):
    """what is left of the white space of the line 4 columns after col, a
    tab that straddles it as the spaces it leaves"""
    at = 0
    want = col + 4
    i = 0
    while i < len(line):
        if at >= want:
            return line[i:]
        k = 4 - at % 4 if line[i] == '\t' else 1
        at += k
        i += 1
        if at > want:
            return ' ' * (at - want) + line[i:]
    return ''


def swap(T, own):
    """any of the runs of spaces at the start of the container's lines as
    tabs, as far as they reach tab stops"""
    o = doc(T, [own])
    h = HOLDERS[T.choose(len(HOLDERS))]
    s = held(T, o + 'z\n', h)
    k = T.choose(4)
    n = 0
    out = ''
    for ln in lines_of(s):
        out = out + (tabs(ln, k) if n != k - 2 else ln) + '\n'
        n += 1
    c = T.hole(1, ' \tz')
    out = out + c + 'z\n'
    T.eq(html(T, out), T.ref.to_html(out), 'HTML differs from the reference')


def tabs(ln, k):
    """the white space before the first letter, in tabs"""
    out = ''
    run = ''
    col = 0
    for i in range(len(ln)):
        c = ln[i]
        if c == ' ':
            run = run + c
            col += 1
            if col % 4 == 0 and (len(run) > 1 or k > 1):
                out = out + '\t'
                run = ''
        else:
            out = out + run + c
            run = ''
            col += 1 if c != '\t' else 4 - col % 4
            if c not in '>-+*0123456789.)':
                return out + ln[i + 1:]
    return out + run


WS = ' \t'
CTX = ['', 'a\n', '- a\n', '- a\n\n', '> a\n', '> a\n\n', '1. a\n\n',
       '- - a\n\n', '- > a\n', '> - a\n>\n', '    a\n', '    a\n\n', '\ta\n',
       '```\n', '   ```\n', '- ```\n', '-\n', '- a\n  - b\n', '10) a\n\n',
       '-     a\n', '-\ta\n\n', '1.\ta\n', '>\ta\n', '<div>\n', '# a\n',
       '- a\n\n  b\n', '  - a\n', '   - a\n\n', '  10. a\n\n', '- \ta\n',
       '-\t\ta\n', '>\t\ta\n', '> ```\n', '-   a\n\n', '-  ```\n',
       '1)\t> a\n', '[a]: b\n', '~~~\n\ta\n', '- a\n\t- b\n']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q, None, 2)


def own(tier):
    q = tier == 'quick'
    n = 6 if q else 8
    out = [(kept,)]
    for k in range(1, 5 if q else 8):
        out.append((columns, k))
    for c in CTX:
        out.append((stops, c, (n, WS)))
        for k in (2, 3, 4) if q else (2, 3, 4, 5):
            out.append((stops, c, (k, WS)))
        for m in ('-', '>', '1.', '2)', '> -', '- -', '+'):
            out.append((stops, c, m, (3 if q else 5, WS)))
            out.append((stops, c, (1, WS), m, (2 if q else 4, WS)))
            out.append((stops, c, (2, WS), m, (2 if q else 3, WS)))
        if not q:
            for m in ('-', '>', '1.', '+'):
                out.append((stops, c, (2, WS), m, (2, WS), '>', (2, WS)))
        out.append((stops, c, (4 if q else 6, ' \t>-')))
        out.append((diff, c, (4 if q else 6, ' \t>-'), 'a'))
        out.append((diff, c, '\t', 1))
        out.append((diff, c, 1, '\t', 'a'))
        out.append((diff, c, (3, WS), 'a\n', (3, WS), 'b'))
    out += [(diff, (6 if q else 8, '- \ta\n')), (diff, (6 if q else 8, '> \ta\n')),
            (diff, 1, '\t', 1), (diff, '- a\n', (5, ' \tb\n')),
            (diff, '> ', (5, ' \tb\n')), (diff, '\t', 2), (diff, ' \t', 2),
            (diff, 'a\n\n', (6, ' \tb\n')), (diff, '1. ', (4, ' \tb\n')),
            (diff, '[a]:', (2, WS), 'b', (2, WS), '"c"', (2, WS), '\n\n[a]'),
            (diff, '#', (2, WS), 'a', (2, WS), '#', (2, WS), '\n'),
            (diff, '*', (2, WS), '*', (2, WS), '*', (2, WS), '\n'),
            (diff, 'a\n', (2, WS), '==', (2, WS), '\n'),
            (diff, (2, WS), '```', (2, WS), 'a', (2, WS), '\n\tb\n'),
            (diff, '```\na\n', (3, WS), '```', (2, WS), '\n\tb\n'),
            (diff, 'a', (3, WS), '\n', (3, WS), 'b'),
            (diff, '[a](', (2, WS), 'b', (2, WS), '"c"', (2, WS), ')'),
            (diff, '   ```\n', (4, WS), 'a\n'), (diff, (3, WS), '<div>\n', (3, WS), 'a'),
            (diff, '`', (3, WS), 'a', (3, WS), '`'),
            (diff, '-', (5, WS), '\n', (4, WS), 'a')]
    for p in most(q, PIECES, 2):
        out.append((swap, p))
    for p in ['\ta\n', '\t\n', '-\ta\n', '>\ta\n', '\t- a\n', 'a\tb\n',
              '\t\ta\n', ' \ta\n', '```\n\ta\n', '-\t\ta\n', '>\t\ta\n',
              '1.\ta\n\n\tb\n', '#\ta\n', '<b>\n\ta\n', '[a]:\tu\n',
              '*\t*\t*\n', '-\n\ta\n', '- \t```\n\ta\n']:
        out += [(beside, p), (inside, p)]
    return out
