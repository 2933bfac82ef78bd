"""The reStructuredText of a document."""
from lib import *

BOUNDS = ('every text of at most 3 characters (thorough: 4) over the markup '
          'alphabet, 1 (thorough: 2) of any kind, and 1 or 2 arbitrary '
          'characters in about 60 contexts; 8 kinds of blocks with arbitrary '
          'characters, nested up to two deep (thorough: three) in quotes '
          'and both kinds of lists, 1 to 3 of them in a row; every indent '
          'character')
BOUNDS += OF_BLOCKS % '24 (thorough: 48)' + \
    OF_INLINES % '8' + \
    OF_MANY
OUTSIDE = ('what docutils makes of it; the number of empty lines where there '
           'is one; headings that are empty or of several lines; thematic breaks and HTML, '
           'which are left out of the output, in a list, and empty quotes; images within a line')


# The output format, written from the tree.  Lines without their indentation
# are pairs of a depth and a text, so that empty lines stay empty.

def spans(n, out, d):
    """the lines of inlines: out is a list of [depth, text]"""
    for c in kids(n):
        t = c.t
        if t == 'text':
            out[-1][1] = out[-1][1] + c.literal
        elif t == 'code':
            out[-1][1] = out[-1][1] + '``' + c.literal + '``'
        elif t == 'softbreak':
            out.append([d, ''])
        elif t == 'linebreak':
            out += [[d, ''], [d, '']]
        elif t in ('emph', 'strong'):
            m = '*' if t == 'emph' else '**'
            out[-1][1] = out[-1][1] + m
            spans(c, out, d)
            out[-1][1] = out[-1][1] + m
        elif t == 'link':
            out[-1][1] = out[-1][1] + '`'
            spans(c, out, d)
            out[-1][1] = out[-1][1] + ' <' + c.destination + '>`_'
        elif t == 'image':
            out[-1][1] = out[-1][1] + '.. image:: ' + c.destination
            out.append([d + 4, ':alt: '])
            spans(c, out, d + 4)


def lines(n, d):
    out = [[d, '']]
    spans(n, out, d)
    return out


def put(ls, ch):
    return [ch * d + t if len(t) else '' for d, t in ls]


def blocks(n, d, ch):
    out = []
    for i, c in enumerate(kids(n)):
        if i:
            out.append('')
        out += block(c, d, ch)
    return out


def block(n, d, ch):
    t = n.t
    if t == 'paragraph':
        return put(lines(n, d), ch)
    if t == 'heading':
        ls = lines(n, d)
        return put(ls, ch) + put([[d, '#*=-^"'[n.level - 1] *
                                   len(ls[0][1])]], ch)
    if t == 'code_block':
        w = n.info.split() if n.info else []
        out = [ch * d + '.. code::' + (' ' + w[0] if w else ''), '']
        for x in lines_of(n.literal):
            out.append(ch * (d + 4) + x)
        return out
    if t == 'block_quote':
        return blocks(n, d + 4, ch)
    if t == 'list':
        m = '* ' if n.list_data['type'] == 'bullet' else '#. '
        out = []
        for it in kids(n):
            a = kids(it)
            if a and a[0].t == 'paragraph':
                b = blocks(it, d + len(m), ch)
                b[0] = ch * d + m + b[0][d + len(m):]
            else:
                b = [ch * d + m] + blocks(it, d + len(m), ch)
            out += b
            if a and a[-1].t != 'paragraph':
                out.append('')
        return out
    return []


def squeeze(ls):
    """one empty line for several, none at the ends"""
    out = []
    for x in ls:
        if len(x) or (out and len(out[-1])):
            out.append(x)
    while out and not len(out[-1]):
        out.pop()
    return out


def nocode(n):
    for c in kids(n):
        if c.t == 'code_block' and len(c.literal) == 0 or nocode(c):
            return True
    return False


def check(T, ast, ch=' '):
    r = T.pkg.ReStructuredTextRenderer() if ch == ' ' else \
        T.pkg.ReStructuredTextRenderer(ch)
    got = r.render(ast)
    T.observe(got)
    a = got.split('\n')
    b = blocks(ast, 0, ch)
    if nocode(ast):
        # code without lines: an empty line, or one of white space
        a = [x if len(x.strip(ch)) else '' for x in a]
        b = [x if len(x.strip(ch)) else '' for x in b]
    T.eq('\n'.join(squeeze(a)), '\n'.join(squeeze(b)), 'RST')
    T.require(r.indent_length == 0, 'indentation restored')
    T.eq(r.render(ast), got, 'rendered again')


def plain(n, listed=False):
    """nothing the writer leaves open"""
    for c in kids(n):
        if c.t == 'heading':
            if c.first_child is None:
                return False
            for e, x in c.walker():
                if e.t in ('softbreak', 'linebreak', 'image'):
                    return False
        if c.t == 'paragraph':
            for x in kids(c):
                if x.t == 'html_inline' or x.t == 'image' and \
                   (x.prv is not None or x.nxt is not None):
                    return False
                if x.t == 'text' and '\n' in x.literal:
                    return False
            for e, x in c.walker():
                # what follows such a break is in no line of the image
                if e.t == 'image' and e.last_child is not None and \
                   e.last_child.t in ('softbreak', 'linebreak'):
                    return False
        if c.t == 'block_quote' and c.first_child is None or \
           listed and c.t in ('thematic_break', 'html_block'):
            return False
        if not plain(c, listed or c.t == 'item'):
            return False
    return True


def any_(T, *ps):
    rst(T, doc(T, ps))


def rst(T, s):
    ast = parse(T, s)
    T.assume(plain(ast))
    check(T, ast)


def near(T, own):
    beside(T, own, rst)


def around(T, own):
    inside(T, own, rst)


def inline(T, own):
    within(T, own, rst)


def indent(T, *ps):
    """any indent character"""
    s = doc(T, ps)
    ast = parse(T, s)
    T.assume(plain(ast))
    check(T, ast, T.hole(1, cs_not('\n')))


# documents and their output made together
PLAIN = '*_`[]()<>!&\\#-+=~.:|"\'0123456789 \t\n\r\f\v\0'


def leaf(T):
    """lines of a block, lines of its output"""
    k = T.choose(9)
    w = T.hole(1, cs_not(PLAIN + '\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000'
                         '\u2001\u2002\u2003\u2004\u2005\u2006\u2007'
                         '\u2008\u2009\u200a\u2028\u2029\u202f\u205f'
                         '\u3000'))
    if k == 0:
        return [w + ' b'], [w + ' b']
    if k == 1:
        return [w, 'b' + w], [w, 'b' + w]
    if k == 2:
        n = 1 + T.choose(6)
        x = T.pick('', 'b', 'b *c*', 'b `c` d')
        y = x.replace('`', '``')
        return ['#' * n + ' ' + w + x], [
            w + y, '#*=-^"'[n - 1] * len(w + y)]
    if k == 3:
        n = T.choose(2)
        return [w + 'b', '=-'[n]], [w + 'b', '#*'[n] * 2]
    if k == 4:
        i = T.pick('', ' python', ' ' + w + ' x')
        b = T.hole(1, cs_not('\n\r\0\t'))
        return ['```' + i, 'b' + b, ' c', '```'], [
            '.. code::' + {0: '', 7: ' python'}.get(len(i), ' ' + w), '',
            '    b' + b, '     c']
    if k == 5:
        return ['**' + w + '** *b* `' + w + '`'], [
            '**' + w + '** *b* ``' + w + '``']
    if k == 6:
        return ['[' + w + '](u' + ')  ', 'b'], [
            '`' + w + ' <u>`_', '', 'b']
    if k == 7:
        return ['![' + w + '](u "t")'], ['.. image:: u', '    :alt: ' + w]
    return ['~~~', '', '~~~'], ['.. code::', '', '    ']


def seq(T, n):
    a, b = leaf(T)
    for _ in range(n - 1):
        c, d = leaf(T)
        a = a + [''] + c
        b = b + [''] + d
    return a, b


def wrap(x, h):
    a, b = x
    if h == 'q':
        return ['> ' + l for l in a], ['    ' + l if len(l) else ''
                                       for l in b]
    m, r = ('- ', '* ') if h == 'b' else ('7) ', '#. ')
    k = len(m)
    s = [m + a[0]] + [' ' * k + l for l in a[1:]]
    j = len(r)
    out = [' ' * j + l if len(l) else '' for l in b]
    return s, (r, out)


def para(l):
    return not (l.startswith('#') or l.startswith('```') or
                l.startswith('~~~') or l.startswith('>') or
                l.startswith('- ') or l.startswith('7) '))


def made(T, n, *how):
    x = seq(T, n)
    for h in how:
        a, b = x
        s, r = wrap(x, h)
        if h != 'q':
            m, out = r
            if para(a[0]) and not (len(a) > 1 and a[1][:1] in '=-' and
                                   len(a[1]) == 1):
                out[0] = m + out[0][len(m):]
            else:
                out = [m] + out
            r = out
        x = s, r
    s, w = x
    T.docs.append('\n'.join(s))
    got = T.pkg.commonmark('\n'.join(s), 'rst')
    T.eq('\n'.join(squeeze(got.split('\n'))), '\n'.join(squeeze(w)), 'RST')


def items(T, m, r, k):
    """an item after the other"""
    n = 2 + T.choose(2)
    s = []
    w = []
    for i in range(n):
        x = T.hole(1, cs_not(PLAIN + '\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000'
                             '\u2001\u2002\u2003\u2004\u2005\u2006\u2007'
                             '\u2008\u2009\u200a\u2028\u2029\u202f\u205f'
                             '\u3000'))
        s.append(m + x)
        w.append(r + x)
        if T.choose(2):
            s.append(' ' * len(m) + 'b')
            w.append(' ' * len(r) + 'b')
        if T.choose(2):
            s += ['', ' ' * len(m) + 'c']
            w += ['', ' ' * len(r) + 'c']
        if i < n - 1 and T.choose(2):
            s.append('')
        if i < n - 1 and k and T.choose(2):
            s += [' ' * len(m) + '- d']
            w += ['', ' ' * len(r) + '* d', '']
    T.docs.append('\n'.join(s))
    got = T.pkg.commonmark('\n'.join(s), 'rst')
    T.eq('\n'.join(squeeze(got.split('\n'))), '\n'.join(squeeze(w)), 'RST')


CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', 'a\n', '- a\n', '- a\n\n',
       '> a\n', '[a]: b\n\n[a]', '[a](b "c")', '![a](b)', '`a`', '*a*',
       '**a** ', '<a:b>', '&amp;', '\\', 'a\n===\n', '- - ', '> - ',
       'a  \n', '*a **b* c', '***', '- a\n  - b\n\n', '***\n', '# *a* `b`\n',
       '_a', '`', '"', '- ```\n  ', '> ```\n> ', '- # ', '> # a\n> ',
       '1. a\n\n   ', '1. - ', '###### ', '``` a\n', '~~~\n\n', '- > ',
       '> > ', '[', '![', '[a](', '- a\n- b\n', 'a\\\n', '- a  \n  ',
       '> # ', '- a\n\n      ', '#### b\n', 'a\n---\n', '-   - a\n    - b\n',
       '- [a](b)\n\n  > ', '```\na\n\n']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, rst) + \
        odds(q, rst) + \
        drops(q, rst, 3, (0, 1, 2, 4, 8, 9, 13, 15))


def own(tier):
    q = tier == 'quick'
    m = '-> \n#`a*'
    out = []
    for k in range(1, 2 if q else 3):
        out.append((any_, k))
    for k in (2, 3) if q else (2, 3, 4):
        out.append((any_, (k, '- >\na#`\t=1.*[]()!&\\_')))
    for c in CTX:
        out += [(any_, c, 1), (any_, c, (2, m + '<=1.[]')),
                (any_, c, (1, m), '\n', (1, m), 'b\n', (1, m)),
                (any_, c, (3, '-> \na'))]
        if c != '![a](b)':
            out += [(any_, c, 'a', 1, '\n\nb'),
                    (any_, 'b\n\n', c, 'a', 1), (indent, c, 'b')]
        if not q:
            out += [(any_, c, 2), (any_, c, (3, m + '[]'))]
    for h in [()] + [(a,) for a in 'qbo'] + \
            [(a, b) for a in 'qbo' for b in 'qbo'] + \
            ([] if q else [(a, b, c) for a in 'qbo' for b in 'qbo'
                           for c in 'qbo']):
        out.append((made, 1) + h)
        if len(h) < 2 or not q:
            out.append((made, 2) + h)
    out += [(made, 1) + h for h in (
        ('q', 'b', 'q'), ('b', 'o', 'b'), ('o', 'q', 'o'), ('b', 'b', 'b'))]
    if not q:
        out.append((made, 3))
    for a, b in (('- ', '* '), ('7. ', '#. '), ('*  ', '* ')):
        out += [(items, a, b, 0), (items, a, b, 1)]
    for p in most(q, PIECES, 2):
        out += [(near, p), (around, p)]
    for x in ('a', '*', '[', '](u)', '`', '<http:a>', '**b**', '*a*'):
        out.append((inline, x))
    for p in ('a\n', 'a\n\n', '> ', '- ', '# a\n\n', '- a\n', '1. ', 'a ',
              '    a\n', '`a` ', '- a\n\n'):
        ks = Times(p, *(BIG[3:20:6] if q else BIG))
        out += [(any_, ks, 1), (any_, ks, 'b\n\n', 1), (any_, '> ', ks, 1),
                (any_, '- ', ks, (1, 'a\n>-'))]
    return out
