"""Source positions say where a block is."""
from lib import *

BOUNDS = ('every text of at most 4 characters (thorough: 5) over the markup '
          'alphabet, 2 (thorough: 3) of any kind, 1 or 2 arbitrary '
          'characters in and after about 50 contexts; 11 kinds of leaf '
          'blocks with arbitrary contents, indented by 0 to 3 spaces, after '
          '0 to 2 blank lines, in block quotes and list items nested up to '
          'two deep (thorough: three)')
BOUNDS += OF_BLOCKS % '24 (thorough: 48)' + \
    OF_MANY
OUTSIDE = ('positions of inline nodes, which have none; columns of blocks '
           'that begin within a tab')

BLOCKS = ['document', 'block_quote', 'list', 'item', 'paragraph', 'heading',
          'code_block', 'html_block', 'thematic_break']


def split(s):
    """the lines, any ending"""
    s = s.replace('\r\n', '\n').replace('\r', '\n')
    ls = s.split('\n')
    if len(ls) > 1 and len(ls[-1]) == 0:
        ls.pop()
    return ls


def blocks(n):
    return [c for c in kids(n) if c.t in BLOCKS]


def laws(T, *ps):
    lawful(T, doc(T, ps))


def lawful(T, s):
    ast = parse(T, s)
    ls = split(s)
    T.observe(len(ls))
    T.eq(ast.sourcepos, [[1, 1], [len(ls), len(ls[-1])]], 'the document')
    inner(T, ast, ls)
    # every line with something on it is in a block, if none defines a link
    if '[' not in s:
        cov = set()
        for b in blocks(ast):
            for i in range(b.sourcepos[0][0], b.sourcepos[1][0] + 1):
                cov.add(i)
        for i, x in enumerate(ls):
            if len(T.ref.strip(x, ' \t\f\v')):
                T.require(i + 1 in cov, 'a line outside every block')


def inner(T, n, ls):
    last = 0
    for b in blocks(n):
        (sl, sc), (el, ec) = b.sourcepos
        T.require(1 <= sl <= el <= len(ls), 'lines of a block')
        T.require(1 <= sc <= len(ls[sl - 1]), 'start column')
        T.require(ec == len(ls[el - 1]), 'end column')
        T.require(sl > last, 'blocks one after the other')
        (psl, psc), (pel, pec) = n.sourcepos
        T.require(psl <= sl and (sl > psl or sc >= psc) and el <= pel,
                  'a block inside its parent')
        last = el
        c = ls[sl - 1][sc - 1]
        if b.t == 'block_quote':
            T.require(c == '>', 'starts at its marker')
        elif b.t == 'item':
            T.require(c in '*+-' if b.list_data['type'] == 'bullet' else
                      c in '0123456789', 'starts at its marker')
        elif b.t == 'html_block':
            T.require(c in ' \t<', 'starts at its tag, or before it')
        elif b.t == 'thematic_break':
            T.require(c in '*-_', 'starts at its marker')
        elif b.t in ('paragraph', 'heading'):
            T.require(c not in ' \t', 'starts at its text')
        if b.t == 'list':
            T.eq(b.sourcepos[0], b.first_child.sourcepos[0], 'a list')
        inner(T, b, ls)


def near(T, own):
    beside(T, own, lawful)


def around(T, own):
    inside(T, own, lawful)


def attr(T, *ps):
    """The attributes of the HTML are the positions of the blocks, and the
    HTML is otherwise the same."""
    s = doc(T, ps)
    ast = parse(T, s)
    out = T.pkg.HtmlRenderer({'sourcepos': True}).render(ast)
    parts = out.split(' data-sourcepos="')
    want = []
    shown(ast, want)
    T.eq(len(parts), len(want) + 1, 'one attribute for each block')
    rest = parts[0]
    for p, w in zip(parts[1:], want):
        k = p.index('"')
        T.eq(p[:k], w, 'attribute')
        rest = rest + p[k + 1:]
    T.eq(rest, T.pkg.HtmlRenderer().render(ast), 'otherwise the same')


def shown(n, out):
    for b in blocks(n):
        tight = b.t == 'paragraph' and n.t == 'item' and \
            n.parent.list_data['tight']
        if not tight and b.t != 'html_block':
            (a, b1), (c, d) = b.sourcepos
            out.append('%d:%d-%d:%d' % (a, b1, c, d))
        shown(b, out)


def alone(T, *ps):
    """A block is what its lines are on their own."""
    s = doc(T, ps)
    T.assume('[' not in s)
    ast = parse(T, s)
    ls = split(s)
    for b in blocks(ast):
        (sl, sc), (el, ec) = b.sourcepos
        part = '\n'.join(ls[sl - 1:el])
        one = blocks(parse(T, part + '\n'))
        T.require(len(one) == 1, 'one block')
        T.same(where(one[0], sl - 1), where(b, 0), 'the same block')
        T.same(tree(one[0]), tree(b), 'the same block')


def where(n, d):
    (a, b), (c, e) = n.sourcepos
    return [n.t, [[a + d, b], [c + d, e]], [where(c, d) for c in blocks(n)]]


# blocks whose positions are known: lines, and a tree of positions
WORD = '*_`[]()<>!&\\#-+=~>.:0123456789 \t\n\r\f\v\0'


def words(T):
    return T.hole(1, cs_not(WORD + '\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000'
                            '\u2001\u2002\u2003\u2004\u2005\u2006\u2007'
                            '\u2008\u2009\u200a\u2028\u2029\u202f\u205f'
                            '\u3000'))


def leaf(T):
    k = T.choose(12)
    i = T.upto(3, ' ')
    c = len(i) + 1
    w = words(T)
    if k == 0:
        ls = [i + w + T.pick('', ' ', '\t')]
        t = 'paragraph'
    elif k == 1:
        ls = [i + w, T.upto(1, ' ') + 'b', 'c']
        t = 'paragraph'
    elif k == 2:
        ls = [i + T.pick('#', '## ', '###\t') + T.pick('', ' ') +
              T.pick('', ' #', ' ##  ')]
        t = 'heading'
    elif k == 3:
        ls = [i + '# ' + w + T.pick('', ' #', ' ##  ')]
        t = 'heading'
    elif k == 4:
        ls = [i + w, 'b', T.upto(3, ' ') + T.pick('=', '--', '=== ')]
        t = 'heading'
    elif k == 5:
        f = T.pick('```', '~~~~')
        ls = [i + f + T.pick('', w), w, '', '  ' + w,
              T.upto(3, ' ') + f + T.pick('', '  ')]
        t = 'code_block'
    elif k == 6:
        ls = ['    ' + i + w, '', '     b']
        t = 'code_block'
        c = 5
    elif k == 7:
        ls = [i + T.pick('***', '- - -', '_  __ ')]
        t = 'thematic_break'
    elif k == 8:
        ls = [i + '<div', w, '</div>']
        t = 'html_block'
    elif k == 9:
        ls = [i + '<!--', '', w, '-->' + w]
        t = 'html_block'
    elif k == 10:
        ls = [i + '<?' + w, '', '?>']
        t = 'html_block'
    else:
        ls = [i + '<a>', w + '*']
        t = 'html_block'
    if t == 'html_block':
        # with its indentation, which is part of it
        c = 1
    return ls, [t, [[1, c], [len(ls), len(ls[-1])]], []]


def shift(n, d, k):
    (a, b), (c, e) = n[1]
    return [n[0], [[a + d, b + k], [c + d, e + k]],
            [shift(x, d, k) for x in n[2]]]


def stack(T, a, b, gap):
    """b after a"""
    la, ta = a
    lb, tb = b
    d = len(la) + len(gap)
    return la + gap + lb, ta + [shift(t, d, 0) for t in tb]


def wrap(T, a, kind, n):
    """in a block quote or an item"""
    ls, ts = a
    i = T.upto(n, ' ')
    if kind == 'q':
        m = i + T.pick('>', '> ') if not ls[0].startswith(' ') else i + '> '
        m2 = m
    else:
        m = i + T.pick('- ', '12) ') if kind == 'i' else i + kind
        m2 = ' ' * len(m)
    out = [m + ls[0]] + [m2 + x for x in ls[1:]]
    if kind == 'q':
        # a marker takes one space
        for x in ls:
            T.assume(m.endswith(' ') or not x.startswith(' '))
    k = len(m)
    ts = [shift(t, 0, k) for t in ts]
    end = [len(out), len(out[-1])]
    sub = [['item', [[1, len(i) + 1], end], ts]] if kind != 'q' else ts
    return out, [['block_quote' if kind == 'q' else 'list',
                  [[1, len(i) + 1], end], sub]]


def places(T, *how):
    ls, t = leaf(T)
    # an item that starts with spaces before its contents is shown apart
    a = (ls, [t])
    for h in how:
        if h in ('q', 'i'):
            if h == 'i':
                T.assume(not a[0][0].startswith(' '))
            a = wrap(T, a, h, 1)
        elif h == 'p':
            # after a heading
            a = stack(T, (['# b'], [['heading', [[1, 1], [1, 3]], []]]), a,
                      ['', ' '][:T.choose(3)])
        elif h == 'n':
            # before a heading
            T.assume(t[0] != 'html_block' or '<!' in ls[0] or '<?' in ls[0])
            a = stack(T, a, (['# b'], [['heading', [[1, 1], [1, 3]], []]]),
                      [])
    # no thematic break out of the markers
    s = '\n'.join(a[0]) + T.pick('', '\n')
    if 'i' in how:
        T.assume(t[0] != 'thematic_break' or '*' in ls[0])
    ast = parse(T, s)
    T.eq([where(b, 0) for b in blocks(ast)], a[1], 'positions')


CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', 'a\n', '- a\n', '- a\n\n',
       '> a\n', '<div>', '[a]: b\n\n', '\n\n', 'a\n===\n', '- - ', '> - ',
       'a  \n', '***\n', '- a\n  - b\n\n', '~~~ a\n\n', '<!-- \n\n',
       '- \n', '-\n', '>\n', '    a\n\n', '- ```\n', '> ```\n',
       '- <div>\n\n', '1. a\n\n   > b\n', '\t', '-\t', '\r\n', 'a\r\n',
       '- a\r\n\r\n', '[a]: b\n', '[a]:\n', '\r', '- a\n\n\n', '1)  a\n',
       '> > a\n', '> a\n>\n', '-     a\n', '*\n\n', '- [a]: b\n', '<p>\n',
       '``` a\nb\n```\n', '\f', '\v', '\0\n']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, lawful) + \
        odds(q, lawful) + \
        drops(q, lawful, 4)


def own(tier):
    q = tier == 'quick'
    m = '-> \n#`a\t'
    out = []
    for k in range(0, 3 if q else 4):
        out += [(laws, k), (attr, k)]
        if k:
            out.append((alone, k))
    for k in (3, 4) if q else (4, 5):
        out.append((laws, (k, '- >\na#`\t<=1.')))
    out += [(alone, (4 if q else 6, '- >\na#`')), (alone, (4, '<a>\n-')),
            (attr, (4, '- >\na#*'))]
    for c in CTX:
        out += [(laws, c, 1), (laws, c, (2, m + '<=*1.\r')),
                (laws, c, (1, m), '\n', (1, m), 'b\n', (1, m)),
                (attr, c, 1), (attr, c, (2, m))]
        if '[' not in c:
            out.append((alone, c, (2 if q else 3, m + '<=*')))
            out.append((alone, c, 1, '\n- b'))
        if not q:
            out += [(laws, c, 2), (laws, c, (3, m + '<*'))]
    out += [(laws, '- a\n', (4, ' \n-b>')), (laws, '> a\n', (4, ' \n-b>'))]
    two = ['', 'q', 'i', 'p', 'n']
    hows = [()] + [(a,) for a in two[1:]]
    hows += [(a, b) for a in two[1:] for b in two[1:]
             if not (a == b == 'p' or a == b == 'n')]
    hows += [('q', 'i', 'q'), ('i', 'q', 'i'), ('i', 'i', 'n')]
    if not q:
        hows += [(a, b, c) for a in 'qi' for b in 'qip' for c in 'qipn']
    for h in hows:
        out.append((places,) + h)
    for p in most(q, PIECES, 2):
        out += [(near, p), (around, p)]
        if not q:
            out.append((attr, p, (3, m)))
    for p in ('a\n', '\n', '> ', '- ', '# a\n', '- a\n', '1. ', '***\n', '>\n',
              '```\n', 'a\r\n', '\r', ' ', '    a\n', '<a>\n'):
        ks = Times(p, *(BIG[4::6] if q else BIG))
        out += [(laws, ks, 1), (laws, '> b\n', ks, (1, 'a\n>-')),
                (laws, '- ', ks, 'b\n', 1), (attr, ks, (1, 'a\n>-'))]
    return out
