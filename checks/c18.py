"""Inline links and images."""
from lib import *

BOUNDS = ('every link text, destination and title of 2 or 3 arbitrary '
          'characters, escaped or not; destinations and titles of up to 7 '
          'characters over the alphabets that matter to them; up to 8 '
          'brackets, bangs and parentheses in any order; white space of up '
          'to 3 characters between the parts; destinations and titles of '
          '1000 characters, 40 nested brackets or parentheses')
BOUNDS += OF_INLINES % '10' + \
    OF_MANY
OUTSIDE = 'longer arbitrary strings and deeper mixtures of constructs'
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def escaped(s):
    out = ''
    for c in s:
        out = out + ('\\' + c if c in PUNCT else c)
    return out


def parts(T, k):
    """text, destination and title say what they say"""
    img = T.pick('', '!')
    x = T.hole(k, cs_not('\n\r\0 \t\x0b\x0c'))
    which = T.choose(4)
    t, d, i = 'a', '/u', ''
    if which == 0:
        t = x
        s = img + '[' + escaped(x) + '](/u)'
    elif which == 1:
        d = T.ref.url(x)
        s = img + '[a](<' + escaped(x) + '>)'
    elif which == 2:
        i = x
        o = T.pick('""', "''", '()')
        s = img + '[a](/u ' + o[0] + escaped(x) + o[1] + ')'
    else:
        d = T.ref.url(x)
        for c in x:
            T.assume(ord(c) > 32)
        s = img + '[a](' + escaped(x) + ')'
    title = ' title="' + esc(i) + '"' if i else ''
    if img:
        w = '<img src="' + esc(d) + '" alt="' + esc(t) + '"' + title + ' />'
    else:
        w = '<a href="' + esc(d) + '"' + title + '>' + esc(t) + '</a>'
    T.eq(html(T, 'z' + s + 'z'), '<p>z' + w + 'z</p>\n', 'parts of a link')


def bare(T, *ps):
    """A bare destination: no space or control character, no unescaped
    parenthesis but balanced ones."""
    d = doc(T, ps)
    ok = not d.startswith('<')
    depth = 0
    i = 0
    while ok and i < len(d):
        c = d[i]
        if c == '\\' and i + 1 < len(d) and d[i + 1] in PUNCT:
            i += 2
            continue
        if c == '\\' and i + 1 == len(d):
            ok = False          # it escapes the parenthesis that follows
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if depth < 0:
                ok = False
        elif ord(c) <= 32:
            ok = False
        i += 1
    if depth:
        ok = False
    T.assume('&' not in d and '`' not in d and '\0' not in d)
    a = parse(T, '[x](' + d + ')').first_child.first_child
    T.observe(a.t)
    if ok:
        T.eq(a.t, 'link', 'a link')
        # the whole of it is the destination
        T.eq(a.nxt, None, 'nothing after the link')
        u = ''
        i = 0
        while i < len(d):
            if d[i] == '\\' and i + 1 < len(d) and d[i + 1] in PUNCT:
                i += 1
            u = u + d[i]
            i += 1
        T.eq(a.destination, T.ref.url(u), 'destination')
    elif depth > 0 and not d.startswith('<'):
        T.require(a.t != 'link', 'parentheses are balanced', d)


def title(T, o, c, *ps):
    """A title ends at the first unescaped delimiter."""
    s = doc(T, ps)
    T.assume('&' not in s and '\0' not in s and '\r' not in s and
             '\n' not in s and '`' not in s)
    i = 0
    end = None
    bad = False
    val = ''
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] in PUNCT:
            val = val + s[i + 1]
            i += 2
            continue
        if s[i] == '\\' and i + 1 == len(s):
            bad = True
        if s[i] == c:
            end = i
        if s[i] == '(' and c == ')':
            bad = True
        val = val + s[i]
        i += 1
    T.assume('<' not in s and '[' not in s and ']' not in s)
    a = parse(T, '[x](/u ' + o + s + c + ')').first_child.first_child
    T.observe(a.t)
    if end is None and not bad:
        T.eq(a.t, 'link', 'a link')
        T.eq(a.title, val, 'title')
    elif c != ')':
        T.require(a.t != 'link' or a.nxt is not None,
                  'a title ends once', s)


def space(T, k):
    """White space around the parts, with at most one line ending."""
    ws = T.hole(k, ' \t\n')
    T.assume(ws.count('\n') <= 1)
    p = T.choose(5)
    w = ['', '', ' ', '']
    if p < 4:
        w[p] = ws
    s = '[a](' + w[0] + '<b>' + w[1]
    if p == 4:
        # no white space between text and parenthesis
        T.assume(k > 0)
        T.require(parse(T, '[a]' + ws + '(b)').first_child.first_child.t !=
                  'link', 'space before the parenthesis')
        return
    if p == 1:
        s = '[a](' + '<b>' + ws + ')'
        want = '<p><a href="b">a</a></p>\n'
    else:
        s = '[a](' + w[0] + '<b>' + w[2] + '"c"' + w[3] + ')'
        want = '<p><a href="b" title="c">a</a></p>\n'
        if w[2] == '':
            T.require(parse(T, s).first_child.first_child.t != 'link',
                      'a space before the title')
            return
    T.eq(html(T, s), want, 'white space')


def nonest(T, *ps):
    """Links do not nest, whatever is in them; images may."""
    x = doc(T, ps)
    s = '[' + T.pick('', '*', '![') + '[' + x + '](u1)' + T.pick(
        '', '](u2)', '*](u2)') + '](u3)'
    ast = parse(T, s)
    w = ast.walker()
    e = w.nxt()
    deep = 0
    n = 0
    while e is not None:
        if e['node'].t == 'link':
            n += 1
            deep += 1 if e['entering'] else -1
            T.require(deep <= 1, 'no links in links', s)
        e = w.nxt()
    T.eq(T.pkg.HtmlRenderer().render(ast), T.ref.to_html(s), 'nesting')


def binds(T):
    """Code spans, autolinks and tags bind tighter than brackets; brackets
    bind tighter than emphasis."""
    c = T.hole(1, 'xyz')
    u = T.hole(1, 'uvw')
    for s, w in (
            ('[a`](' + u + ')' + c + '`', '[a<code>](' + u + ')' + c +
             '</code>'),
            ('[a<b c="](' + u + ')' + c + '">', '[a<b c="](' + u + ')' + c +
             '">'),
            ('[a<http://b?](' + u + ')' + c + '>', '[a<a href="http://b?]('
             .replace(']', '%5D') + u + ')' + c + '">http://b?](' + u + ')' +
             c + '</a>'),
            ('*[a*](' + u + ')' + c, '*<a href="' + u + '">a*</a>' + c),
            ('[a*](' + u + ')' + c + '*', '<a href="' + u + '">a*</a>' + c +
             '*'),
            ('*[a](' + u + '*)' + c, '*<a href="' + u + '*">a</a>' + c),
            ('![a`](' + u + ')' + c + '`', '![a<code>](' + u + ')' + c +
             '</code>'),
            ('*a [b*' + c + ']', '<em>a [b</em>' + c + ']'),
            ('[a](`b)' + c + '`', '[a](<code>b)' + c + '</code>' if False
             else None)):
        if w is not None:
            T.eq(html(T, s), '<p>' + w + '</p>\n', 'binds tighter')


def alt(T, *ps):
    """The description of an image is its text, without its markup."""
    x = doc(T, ps)
    T.assume('\n' not in x and '\r' not in x and '\0' not in x)
    ast = parse(T, '![' + x + '](u)')
    a = ast.first_child.first_child
    T.observe(a.t)
    if a.t != 'image' or a.nxt is not None:
        return
    out = ''
    w = a.walker()
    e = w.nxt()
    while e is not None:
        n = e['node']
        if e['entering'] and n.literal is not None:
            out = out + n.literal
        e = w.nxt()
    T.eq(T.pkg.HtmlRenderer().render(ast), '<p><img src="' +
         esc(a.destination) + '" alt="' + esc(out) + '" /></p>\n',
         'description')


def long(T):
    n = T.pick(40, 200, 1000)
    c = T.hole(1, 'ab')
    T.eq(html(T, '[x](' + c * n + ')'), '<p><a href="' + c * n +
         '">x</a></p>\n', 'long destination')
    T.eq(html(T, '[x](u "' + c * n + '")'), '<p><a href="u" title="' + c * n
         + '">x</a></p>\n', 'long title')
    T.eq(html(T, '[' + c * n + '](u)'), '<p><a href="u">' + c * n +
         '</a></p>\n', 'long text')
    m = T.pick(1, 2, 3, 10, 31, 32, 33, 40)
    d = '(' * m + c + ')' * m
    T.eq(html(T, '[x](' + d + ')'), '<p><a href="' + d + '">x</a></p>\n',
         'balanced parentheses')
    T.eq(html(T, '[x](' + d + '()' * m + ')'), '<p><a href="' + d + '()' * m
         + '">x</a></p>\n', 'balanced parentheses')
    b = '[' * m + c + ']' * m
    T.eq(html(T, '[' + b + '](u)'), '<p><a href="u">' + b + '</a></p>\n',
         'balanced brackets')
    T.eq(html(T, '[x](u) ' * m + c), '<p>' + '<a href="u">x</a> ' * m + c +
         '</p>\n', 'many links')
    T.eq(html(T, '![' * m + c + '](u)' * m), '<p><img src="u" alt="' + c +
         '" /></p>\n', 'nested images')
    T.eq(html(T, '[' * m + c + '](u)'), '<p>' + '[' * (m - 1) +
         '<a href="u">' + c + '</a></p>\n', 'open brackets')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q) + \
        drops(q, None, 3, (16,))


def own(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    out = [(parts, 1), (parts, 2 + d), (binds,), (long,)]
    out += [(bare, 1), (bare, 2), (bare, 3 if q else 3),
            (bare, (5 + d, '()\\a')), (bare, 'a', (4 + d, '()\\<>.')),
            (bare, (6 + d, '()a')), (bare, '(', (4 + d, '()\\*'), ')'),
            (bare, '\\', 2, 'a')]
    for o, c in ('""', "''", '()'):
        out += [(title, o, c, 1), (title, o, c, 2), (title, o, c, 3),
                (title, o, c, (5 + d, o + c + '\\a')),
                (title, o, c, (4 + d, '"\'()\\'))]
    out += [(space, k) for k in range(0, 4)]
    out += [(nonest, 1), (nonest, 2), (nonest, (4 + d, '[]!*`')),
            (nonest, (3, '](u)`'))]
    out += [(alt, 1), (alt, 2), (alt, 3 if not q else 2, ' c'),
            (alt, (5 + d, '*_`[]')), (alt, (4 + d, '*`!]<&')),
            (alt, 'a', (4, '[]()!'), 'b'), (alt, '[a](b "', 1, '")', 1)]
    out += [
        (diff, '[a](', 2, ')'), (diff, '[a](<', 2, '>)'),
        (diff, '[', 2, '](u)'), (diff, '![', 2, '](u)'),
        (diff, '[a](u "', 2, '")'), (diff, "[a](u '", 2, "')"),
        (diff, '[a](u (', 2, '))'), (diff, '[a](u', 2, '"t")'),
        (diff, '[a](u "t"', 2, ')'), (diff, '[a]', 1, '(u)'),
        (diff, '[a](', 1, 'u', 1, '"t', 1, '")'), (diff, 1, '[a](u)', 1),
        (diff, 1, '![a](u)', 1), (diff, '[a', 1, '](u', 1, ')'),
        (diff, '[a]', (5 + d, '( )<>u"')), (diff, '[a](', (5 + d, '()\\ <>'), ')'),
        (diff, '[a](u', (5 + d, ' "\n()\''), ')'), (diff, (7 + d, '[]()!')),
        (diff, (7, '[]()a!')) if not q else (diff, (6, '[]()a!')),
        (diff, '[a](<', (5 + d, '<>\\ )'), '>)'),
        (diff, '[a](<', (4 + d, '<>\n)\\'), ' "t")'),
        (diff, '[a](u "', (5 + d, '"\\)\n '), '")'),
        (diff, "[a](u '", (5 + d, "'\\)\" "), "')"),
        (diff, '[a](u (', (5 + d, '()\\\n '), '))'),
        (diff, '[a](u "b\n', (3, '\n >-"'), 'c")'),
        (diff, '[a', (5 + d, '[]`!\\'), '](u)'),
        (diff, '[a', (4 + d, '<>`]*'), '](u)`>*'),
        (diff, '![a', (5 + d, '[]*!`'), '](u)'),
        (diff, '[a](u)', (4 + d, '[](u)'), '[b](v)'),
        (diff, '[a [b](c) ', (4, '[]!*'), '](d)'),
        (diff, '![a [b](c) ', (4, '[]!*'), '](d)'),
        (diff, '[![a](b) ', (4, '[]!*'), '](c)'),
        (diff, '[a](b', (3, '\t\x0b\x0c \xa0\u2003'), '"t")'),
        (diff, '[a](', (3, '\t\x0b\x0c \xa0\n'), 'b)'),
        (diff, '[a](b "t"', (3, '\t\x0b\x0c \xa0\n'), ')'),
        (diff, '[a](b"', (3, '" )t'), ')'), (diff, '[a](b\\', 1, ')'),
        (diff, '[a](b&', (3, 'amp;'), ')'), (diff, '[a](\\', 2, ')'),
        (diff, '[a](u "t" ', (3, ')"( t')), (diff, '[a](u)(', (2, 'v)')),
        (diff, '[a](u)[', (2, 'b]'), '\n\n[b]: w'),
        (diff, '[a](', (3, ' )\nu'), '\n\n[a]: w'),
        (diff, '> [a](b\n', (2, '> -'), '"c")'),
        (diff, '- [a](b\n', (3, ' ->'), '"c")'),
        (diff, '# [a](b', (2, ' \n)'), '"c")'), (diff, '[a\n', (2, ' b]*'), '](u)'),
        (diff, 'x\\', (3, '![]\\'), 'a](u)'), (diff, 'x!', (3, '![\\]'), 'a](u)'),
    ]
    out += inlinecross(
        ['[a](b)', '![a](b)', '[a](<b> "c")', '[a]()', '[a [b](c)](d)',
         '[a](b', '](b)', '[', '![a [b](c)](d)', "[a](b 'c')"]) + [
        (pairs, '[a](b)', ''), (pairs, '![a', '](b)'), (pairs, '[', '](u "t")'),
        (diff, '[a](', Times('(', 0, *BIG), 'b', Times(')', 0, *BIG), ')'),
        (diff, Times('[', *BIG[:24]), 'a', Times('](b)', *BIG[:24])),
        (diff, Times('![', *BIG[:24]), 'a', Times('](b)', *BIG[:24])),
        (diff, Times('[', *BIG[:24]), 'a', Times(']', *BIG[:24]), '(b)'),
        (diff, '[', Times('a ', *BIG), '](', Times('b', *BIG[:24]), ')'),
        (diff, '[a](b', Times(' ', *BIG), ['"t"', ')', '\n"t"', '\n\n"t"'], ')'),
        (diff, '[a](b "', Times('t ', *BIG), ['"', "'", '\\"', '\n\n"'], ')'),
        (diff, Times('[a](b) ', *BIG[:24]), ['[', '![', ''], 'a](c)')]
    return out
