"""Walking a tree, and joining its texts."""
from lib import *

BOUNDS = ('the trees of every text of at most 2 characters (thorough: 3) and '
          'of 1 or 2 arbitrary characters in about 50 contexts, from every '
          'node of them; every forest of up to 6 nodes (thorough: 7) with '
          'kinds of its own; every point to resume at')
BOUNDS += OF_BLOCKS % '6 (thorough: 48)' + \
    OF_INLINES % '7' + \
    OF_MANY
OUTSIDE = ('larger trees; trees changed during a walk, except below and '
           'after the current node')

CONT = ['document', 'block_quote', 'list', 'item', 'paragraph', 'heading',
        'emph', 'strong', 'link', 'image', 'custom_inline', 'custom_block']
LEAF = ['text', 'softbreak', 'linebreak', 'code', 'html_inline',
        'code_block', 'html_block', 'thematic_break']


def events(n):
    out = [(n, True)]
    if n.t in CONT:
        for c in kids(n):
            out += events(c)
        out.append((n, False))
    return out


def walk(n):
    """by the method that gives dictionaries"""
    out = []
    w = n.walker()
    e = w.nxt()
    while e is not None:
        out.append((e['node'], e['entering']))
        e = w.nxt()
    return out


def iterate(n):
    return [(a, b) for a, b in n.walker()]


def agree(T, got, want, label):
    T.eq(len(got), len(want), label)
    for (a, b), (c, d) in zip(got, want):
        T.require(a is c and b == d, label)


def visits(T, *ps):
    """Every node is entered once in document order; containers are left
    once, after their contents: from every node of a parsed tree."""
    s = doc(T, ps)
    ast = parse(T, s)
    all_ = events(ast)
    T.observe([(n.t, e) for n, e in all_])
    for n, e in all_:
        if e:
            want = events(n)
            agree(T, walk(n), want, 'visits')
            agree(T, iterate(n), want, 'visits')
            T.require(n.is_container() == (n.t in CONT), 'container')
            w = n.walker()
            for _ in want:
                w.nxt()
            T.require(w.nxt() is None, 'the end stays the end')
            T.require(w.nxt() is None, 'the end stays the end')


def num(c):
    return '0123456789'.index(c)


def forest(T, n):
    """a tree of n nodes below a root; kinds chosen by the solver too"""
    Node = T.mods['commonmark.node'].Node
    root = Node('document', None)
    N = [root]
    path = [root]
    for i in range(n):
        d = num(T.hole(1, '0123456789'[:len(path)]))
        path = path[:d + 1]
        T.assume(path[-1].t in CONT)
        x = Node('item' if num(T.hole(1, '01')) else 'text', None)
        x.literal = None if x.t == 'item' else 't%d' % i
        p = path[-1]
        x.parent = p
        if p.last_child is not None:
            p.last_child.nxt = x
            x.prv = p.last_child
        else:
            p.first_child = x
        p.last_child = x
        path.append(x)
        N.append(x)
    return N


def shapes(T, n):
    N = forest(T, n)
    want = events(N[0])
    agree(T, walk(N[0]), want, 'visits')
    agree(T, iterate(N[0]), want, 'visits')
    # resume at any visit: it comes next, and then what follows it
    k = T.choose(len(want))
    w = N[0].walker()
    for _ in range(T.pick(0, 1, len(want))):
        w.nxt()
    w.resume_at(want[k][0], want[k][1])
    got = []
    e = w.nxt()
    while e is not None:
        got.append((e['node'], e['entering']))
        e = w.nxt()
    agree(T, got, want[k:], 'resumed')
    # a part of it
    i = T.choose(len(N))
    agree(T, walk(N[i]), events(N[i]), 'visits of a part')


def kinds(T):
    """every kind of node, with and without contents"""
    Node = T.mods['commonmark.node'].Node
    t = T.pick(*(CONT + LEAF))
    d = Node('document', None)
    n = Node(t, None)
    d.append_child(n)
    if T.choose(2):
        m = Node('text', None)
        m.literal = T.hole(1)
        n.append_child(m)
        if t not in CONT:
            agree(T, walk(d), [(d, True), (n, True), (d, False)], 'a leaf')
            return
    agree(T, walk(d), events(d), 'visits')


def seq(n):
    """the tree with adjacent texts joined"""
    out = []
    for c in kids(n):
        if c.t == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + c.literal, [])
        elif c.t == 'text':
            out.append(('text', c.literal, []))
        else:
            out.append((c.t, c.literal, seq(c)))
    return out


def adjacent(n):
    for c in kids(n):
        if c.t == 'text' and c.nxt is not None and c.nxt.t == 'text':
            return True
        if adjacent(c):
            return True
    return False


def links(T, node, parent):
    T.require(node.parent is parent, 'parent link')
    c = node.first_child
    prev = None
    while c is not None:
        T.require(c.prv is prev, 'previous link')
        links(T, c, node)
        prev = c
        c = c.nxt
    T.require(node.last_child is prev, 'last child')


def joined(T, ast):
    before = seq(ast)
    ast.normalize()
    T.require(not adjacent(ast), 'no adjacent texts')
    T.same(seq(ast), before, 'the same tree')
    links(T, ast, None)
    T.same([(n.t, e) for n, e in walk(ast)],
           [(n.t, e) for n, e in events(ast)], 'visits')


def normal(T, *ps):
    """Joining adjacent texts loses nothing and shows in no output."""
    s = doc(T, ps)
    ast = parse(T, s)
    h = T.pkg.HtmlRenderer().render(ast)
    r = T.pkg.ReStructuredTextRenderer().render(ast)
    T.observe(h)
    joined(T, ast)
    T.same(T.pkg.HtmlRenderer().render(ast), h, 'the same HTML')
    T.same(T.pkg.ReStructuredTextRenderer().render(ast), r, 'the same RST')


def normal2(T, n):
    N = forest(T, n)
    # one of the texts is empty, or none and only looks like one
    k = T.choose(n + 1)
    if k:
        T.assume(N[k].t == 'text')
        f = T.choose(4)
        if f == 0:
            N[k].literal = ''
        else:
            N[k].t = ['code', 'html_inline', 'softbreak'][f - 1]
            if f == 3:
                N[k].literal = None
    joined(T, N[0])


def edit(T, n):
    """unlinking the node just visited does not disturb the walk"""
    N = forest(T, n)
    want = events(N[0])
    k = T.choose(len(want))
    T.assume(want[k][0].t not in CONT)
    w = N[0].walker()
    got = []
    e = w.nxt()
    i = 0
    while e is not None:
        got.append((e['node'], e['entering']))
        if i == k:
            e['node'].unlink()
        i += 1
        e = w.nxt()
    agree(T, got, want, 'visits')


CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', 'a\n', '- a\n', '- a\n\n',
       '> a\n', '<div>', '[a]: b\n\n[a]', '[a](b "c")', '![a](b)',
       '![a *b* `c`](d "e")', '`a`', '*a*', '**a** ', '<a>', '&amp;', '\\',
       'a\n===\n', '- - ', '> - ', 'a  \n', '*a **b* c', '[[a](b)', '***',
       '- a\n  - b\n\n', '***\n', '[![a](b)](c)', '# *a* `b`\n', '*![a]',
       '![[a](b)', '_a', '`', '["', '<', '!']


def whole(T, s):
    visits(T, s)
    normal(T, s)


def near(T, own):
    beside(T, own, whole)


def around(T, own):
    inside(T, own, whole)


def inline(T, own):
    within(T, own, whole)


def two(T, a, b):
    pairs(T, a, b, whole)


def wide(T, k):
    """many children; texts joined wherever they are"""
    Node = T.mods['commonmark.node'].Node
    p = Node('paragraph', None)
    n = T.pick(*k)
    at = [0, 1, n // 2, n - 1][T.choose(4)]
    x = T.hole(1)
    for i in range(n):
        c = Node('text' if i != at else 'emph', None)
        if c.t == 'text':
            c.literal = x if i % 3 == 0 else 't%d' % i
        p.append_child(c)
    joined(T, p)
    agree(T, walk(p), events(p), 'visits')
    T.eq(len(kids(p)), (at > 0) + (at < n - 1) + 1, 'what is left')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, whole, 2 if q else 1) + \
        odds(q, whole, 2) + \
        drops(q, whole, 19)


def own(tier):
    q = tier == 'quick'
    m = '*_`[]()<>!&\\#- \na"'
    out = [(kinds,)]
    for k in range(0, 3 if q else 4):
        out += [(visits, k), (normal, k)]
    for n in range(1, 5 if q else 6):
        out += [(shapes, n)]
    for n in range(1, 6 if q else 7):
        out += [(normal2, n)]
    for n in range(1, 5 if q else 6):
        out += [(edit, n)]
    for c in CTX:
        out += [(visits, c, 1), (visits, c, (2, m)), (normal, c, (2, m)),
                (normal, c, 1, 'a*b_c'), (normal, 'a', 1, c, 1)]
        if not q:
            out += [(visits, c, 2), (normal, c, 2)]
    out += [(normal, (5, '*_a [')), (normal, (5, '[]!a(')),
            (normal, '![', (4, '*[]a!'), '](b)'), (visits, (5, '*a\n->'))]
    for p in most(q, PIECES, 8):
        out += [(near, p), (around, p)]
    for x in ('a', '*', '[', '](u)', '`', '_', '![') if q else INLINES:
        out.append((inline, x.replace('%s', 'a')))
    for a, b in (('*', '*'), ('[', '](u)')):
        out.append((two, a, b))
    out.append((wide, BIG[1:]))
    return out
