"""The result depends on the text and the options alone."""
from lib import *

BOUNDS = ('every pair of about 60 first texts (with 1 or 2 arbitrary '
          'characters) and 30 second texts; every text of 2 arbitrary '
          'characters before every text of 2 over the markup alphabet; '
          'parsers, renderers and the convenience function used 2 to 4 '
          'times in a row or in turns, up to 12 times, '
          'and after a call that failed; 23 constructs with contents that are alike; about 100 constructs before about 35')
OUTSIDE = 'longer histories; several threads at the same time'

A = ['[a]: /x "t"\n\n', '```\n', '~~~ q\n', '<!--', '<div>\n', '- a\n',
     '- a\n\n  b', '> a', '1. a\n2) b', '![a', '![a](b', '![a](b)', '[a](b)',
     '![![a](b)](c)', '*a', '**a', '_a', '`a', '``a', '<a', '# a', 'a\n=',
     '    a\n', '\ta', '"a', "'a", 'a--', '...', '&amp;', '\\', '<http:a>',
     '[a]', '![*a', '*[a*]', '[[a](b)', '- - - a', '> - a\n> b', '***\n',
     '<?', 'a  \nb', '- ```\n  a', '[a]: b\n[c]: d\n', '![a]\n\n[a]: u\n',
     '> [a]: z\n', '<pre>\n', 'a\r', '99. a', '- a\n- b\n\n', '![<b>](c)',
     '``` x\ny\n```\n', '![`a`](b)', '# ![a', '> ![a](b "', '* a\n\n* b', '[', '[a [b', '![a [b', '**[a', '[a *b', '[a]: ',
     'a [b\n\nc', '> [a', '- [a\n- ![b', '"[a', '[a][', 'a  ',
     '1. [a\n   b']
B = ['[a]', '[a][]', '[q][a]', '![a]', 'a', '*a*', '**b', '_a_', '`a`', 'a`',
     '- a\n- b', '- a\n\n- b', '> a\n\nb', '    a', '<b>', '```\na\n```',
     'a\nb', '"a" \'b\' -- ...', '![a](b)', '1. a\n1. b', '# a', '&amp;\\*',
     '[c]: y\n\n[c] [a]', '***a** b*', 'a  \nb', '', '<div>\n*a*\n\n*b*',
     '2. a\n   - b', '[a](b', '* * *', 'a](b "c")', 'a]', 'a][a]',
     'a* b** c_', 'a" b\'', 'a](b)\n\n[c]', '](<d>) [a]', 'a)', 'a>',
     '-->\n\n*a*', '  a\n    b']


def fields(n):
    d = n.list_data
    return [n.t, n.literal, n.destination, n.title, n.info, n.level,
            n.sourcepos, [d.get(k) for k in (
                'type', 'tight', 'start', 'bullet_char', 'delimiter')]
            if d else None, [fields(c) for c in kids(n)]]


def fresh(T, s, po, ro):
    return T.pkg.HtmlRenderer(ro).render(T.pkg.Parser(po).parse(s))


def again(T, a, b):
    """a parser and a renderer that were used before, on something else"""
    x = doc(T, a)
    y = doc(T, b)
    T.docs += [x, y]
    pkg = T.pkg
    how = T.choose(6)
    if how == 0:
        p = pkg.Parser()
        p.parse(x)
        got = p.parse(y)
        T.same(fields(got), fields(pkg.Parser().parse(y)), 'parser reused')
        T.eq(pkg.HtmlRenderer().render(got), fresh(T, y, {}, {}),
             'parser reused')
    elif how == 1:
        r = pkg.HtmlRenderer()
        p = pkg.Parser()
        r.render(p.parse(x))
        T.eq(r.render(p.parse(y)), fresh(T, y, {}, {}), 'renderer reused')
    elif how == 2:
        r = pkg.ReStructuredTextRenderer()
        r.render(pkg.Parser().parse(x))
        T.eq(r.render(pkg.Parser().parse(y)),
             pkg.ReStructuredTextRenderer().render(pkg.Parser().parse(y)),
             'renderer reused')
    elif how == 3:
        # options of one do not reach another
        po = {'smart': True}
        ro = {'safe': True, 'sourcepos': True, 'softbreak': '_'}
        r1 = pkg.HtmlRenderer(ro)
        r2 = pkg.HtmlRenderer()
        r1.render(pkg.Parser(po).parse(x))
        T.eq(r2.render(pkg.Parser().parse(y)), fresh(T, y, {}, {}),
             'options')
        T.same([po, ro], [{'smart': True}, {
            'safe': True, 'sourcepos': True, 'softbreak': '_'}],
            'the options of the caller')
        T.same(r1.render(pkg.Parser(po).parse(y)), fresh(T, y, po, ro),
               'options')
        T.same(fresh(T, y, {}, {}), r2.render(pkg.Parser().parse(y)),
               'options')
    elif how == 4:
        T.require(pkg.commonmark(x) is not None, 'text')
        pkg.dumpJSON(pkg.Parser().parse(x))
        T.eq(pkg.commonmark(y), fresh(T, y, {}, {}), 'convenience function')
        T.same(pkg.commonmark(y, 'rst'), pkg.ReStructuredTextRenderer().
               render(pkg.Parser().parse(y)), 'convenience function')
    else:
        # in turns; trees that were returned stay as they are
        p = pkg.Parser()
        q = pkg.Parser({'smart': True})
        t1 = p.parse(y)
        f1 = fields(t1)
        t2 = q.parse(x)
        f2 = fields(t2)
        t3 = p.parse(x)
        q.parse(y)
        p.parse(y)
        T.same(fields(t1), f1, 'an earlier tree')
        T.same(fields(t2), f2, 'an earlier tree')
        r = pkg.HtmlRenderer()
        T.eq(r.render(t1), fresh(T, y, {}, {}), 'an earlier tree')
        T.same(r.render(t3), fresh(T, x, {}, {}), 'an earlier tree')
        T.same(r.render(t1), fresh(T, y, {}, {}), 'rendered again')
        T.same(r.render(t2), fresh(T, x, {'smart': True}, {}),
               'an earlier tree')


def thrice(T, a, b):
    """three times is the same as once"""
    x = doc(T, a)
    y = doc(T, b)
    T.docs += [x, y]
    p = T.pkg.Parser()
    r = T.pkg.HtmlRenderer()
    s = T.pkg.ReStructuredTextRenderer()
    want = fresh(T, y, {}, {})
    rst = T.pkg.ReStructuredTextRenderer().render(T.pkg.Parser().parse(y))
    for i in range(3):
        r.render(p.parse(x))
        s.render(p.parse(x))
        T.same(r.render(p.parse(y)), want, 'HTML')
        T.same(s.render(p.parse(y)), rst, 'RST')
    T.observe(want)


def many(T, a, b):
    """after many texts"""
    x = doc(T, [a])
    y = doc(T, [b])
    T.docs += [x, y]
    p = T.pkg.Parser()
    r = T.pkg.HtmlRenderer()
    t = T.pkg.ReStructuredTextRenderer()
    for i in range(T.pick(2, 5, 12)):
        r.render(p.parse(x))
        t.render(p.parse(x))
    T.eq(r.render(p.parse(y)), fresh(T, y, {}, {}), 'reused often')
    T.same(t.render(p.parse(y)), T.pkg.ReStructuredTextRenderer().render(
        T.pkg.Parser().parse(y)), 'reused often')


def error(T, a, b):
    """a use that failed leaves nothing behind"""
    x = doc(T, [a])
    y = doc(T, [b])
    T.docs += [x, y]
    p = T.pkg.Parser()
    r = T.pkg.HtmlRenderer()
    s = T.pkg.ReStructuredTextRenderer()
    t = p.parse(x)
    # its last text or code is not text
    bad = None
    for n, e in t.walker():
        if n.literal:
            bad = n
    if bad is not None:
        bad.literal = 5
    for q in (r, s):
        try:
            q.render(t)
        except (AttributeError, TypeError):
            pass
    try:
        p.parse(None)
    except (AttributeError, TypeError):
        pass
    T.eq(r.render(p.parse(y)), fresh(T, y, {}, {}), 'after an error')
    T.same(s.render(p.parse(y)), T.pkg.ReStructuredTextRenderer().render(
        T.pkg.Parser().parse(y)), 'after an error')


def owners(T, a, b):
    """the options of a caller stay as they are, whichever they are, and the
    defaults too"""
    x = doc(T, [a])
    y = doc(T, [b])
    T.docs += [x, y]
    o = {}
    for k, v in (('smart', True), ('safe', True), ('sourcepos', True),
                 ('softbreak', '_'), ('else', 1)):
        if T.choose(2):
            o[k] = v
    kept = dict(o)
    want = fresh(T, y, dict(o), dict(o))
    plain = fresh(T, y, {}, {})
    for i in range(2):
        p = T.pkg.Parser(o)
        T.same(o, kept, 'the options of the caller')
        r = T.pkg.HtmlRenderer(o)
        T.same(o, kept, 'the options of the caller')
        r.render(p.parse(x))
        T.same(r.render(p.parse(y)), want, 'options')
        T.same(o, kept, 'the options of the caller')
        T.same(T.pkg.HtmlRenderer().render(T.pkg.Parser().parse(y)), plain,
               'no options')


def alikes(T, k, cs):
    """texts that look alike are told apart, whichever comes first"""
    u, v = likes(T, cs)
    x = SAME[k].replace('%s', u)
    y = SAME[k].replace('%s', v)
    if T.choose(2):
        x, y = y, x
    T.docs += [x, y]
    p = T.pkg.Parser()
    r = T.pkg.HtmlRenderer()
    t = T.pkg.ReStructuredTextRenderer()
    a = p.parse(x)
    rst = t.render(a)
    T.eq(r.render(a), T.ref.to_html(x), 'the first text')
    for z in (y, x):
        T.eq(r.render(p.parse(z)), T.ref.to_html(z), 'the next text')
        T.eq(html(T, z), T.ref.to_html(z), 'the next text')
    T.same(t.render(p.parse(x)), rst, 'RST')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(A)):
        out.append((again, [A[i], 1], [B[i % 5::5] if q else B]))
        out.append((again, [A[i]], [B]))
        out.append((again, [B[i % 6::6] if q else B], [B[i % len(B)], 1]))
        out.append((again, [A[i]], [(2, '[]*`\n>"' if q else '[]*`\n> -a"')]))
        out.append((thrice, [A[i], (1, '*]`)>"\na')], [B]))
        if not q:
            out.append((again, [A[i], 2], [B]))
            out.append((again, [A], [A[i], 1]))
    out.append((again, [2], [['[a]', '*a', '- b', '`', '"']] if q else
                [(2, '*[`> -\na"')]))
    out.append((again, [(2 if q else 3, '[]!*`>-\n')], [(2, '[]a\n-*')]))
    out.append((thrice, [1], [B]))
    out.append((thrice, [A], [B]))
    out.append((thrice, [A], ['[a]: /z\n\n', A]))
    for k in range(len(SAME)):
        out.append((alikes, k, ' b`*]&\n' if q else None))
    for i in range(len(B)):
        out.append((owners, A[i], B[i]))
    for i in range(len(PIECES)):
        out.append((again, [PIECES[i]], [PIECES[i % 4::4] if q else PIECES]))
        out.append((again, [A[i]], [PIECES[i % 5::5] if q else PIECES]))
        out.append((many, [PIECES[i]], [(1, '*[]`>-\na"(')]))
        out.append((error, [PIECES[i], 'z'], [B[i % 3::3] if q else B]))
    for i in range(len(INLINES)):
        x = INLINES[i].replace('%s', 'a')
        out.append((again, [x], [B[i % 4::4] if q else B]))
        if not q:
            out.append((again, [B], [x]))
            out.append((error, [x, 1], [B]))
    return out
