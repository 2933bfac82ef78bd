"""Editing a tree keeps its links consistent and does what it says."""
from lib import *

BOUNDS = ('one step from every forest of at most 5 nodes (thorough: 6): any '
          'of the five operations on any of its nodes, the links set up '
          'directly; sequences of 3 operations (thorough: 4) on 3 or 4 new '
          'nodes; edits of parsed trees with an arbitrary character, '
          'rendered')
OUTSIDE = ('forests with more nodes; operations that would make a cycle, '
           'and insertion next to a node without a parent')

OPS = 'apBAu'


class Model(object):
    """a forest as lists of children"""

    def __init__(self, n):
        self.up = [None] * n
        self.down = [[] for _ in range(n)]

    def cut(self, i):
        p = self.up[i]
        if p is not None:
            self.down[p].remove(i)
        self.up[i] = None

    def put(self, i, p, at):
        self.down[p].insert(at, i)
        self.up[i] = p

    def above(self, i, j):
        """is i an ancestor of j, or j"""
        while j is not None:
            if i == j:
                return True
            j = self.up[j]
        return False


def link(N, m):
    """the pointers a model stands for, set without the methods"""
    for i, n in enumerate(N):
        n.parent = None if m.up[i] is None else N[m.up[i]]
        n.first_child = N[m.down[i][0]] if m.down[i] else None
        n.last_child = N[m.down[i][-1]] if m.down[i] else None
        n.prv = n.nxt = None
    for i in range(len(N)):
        d = m.down[i]
        for a, b in zip(d, d[1:]):
            N[a].nxt = N[b]
            N[b].prv = N[a]


def index(N, x):
    if x is None:
        return None
    for i, n in enumerate(N):
        if n is x:
            return i
    return -1


def compare(T, N, m):
    for i, n in enumerate(N):
        d = m.down[i]
        p = m.up[i]
        sib = m.down[p] if p is not None else [i]
        k = sib.index(i)
        want = [p, d[0] if d else None, d[-1] if d else None,
                sib[k - 1] if k > 0 else None,
                sib[k + 1] if k + 1 < len(sib) else None]
        got = [index(N, x) for x in (
            n.parent, n.first_child, n.last_child, n.prv, n.nxt)]
        T.eq(got, want, 'links of a node')


def step(T, N, m, op, i, j):
    """node i, operation, node j; what the model says about it"""
    if op == 'u':
        T.assume(i == j)
        N[i].unlink()
        m.cut(i)
        return
    T.assume(i != j and not m.above(j, i))
    if op == 'a':
        N[i].append_child(N[j])
        m.cut(j)
        m.put(j, i, len(m.down[i]))
    elif op == 'p':
        N[i].prepend_child(N[j])
        m.cut(j)
        m.put(j, i, 0)
    else:
        p = m.up[i]
        T.assume(p is not None)
        if op == 'B':
            N[i].insert_before(N[j])
            m.cut(j)
            m.put(j, p, m.down[p].index(i))
        else:
            N[i].insert_after(N[j])
            m.cut(j)
            m.put(j, p, m.down[p].index(i) + 1)


def num(c):
    return '0123456789'.index(c)


def one(T, n, op):
    """any operation on any two nodes of any forest of n nodes"""
    Node = T.mods['commonmark.node'].Node
    N = [Node('item', None) for _ in range(n)]
    m = Model(n)
    path = []
    for i in range(n):
        # the depth of the next node in preorder
        d = num(T.hole(1, '0123456789'[:len(path) + 1]))
        path = path[:d]
        if path:
            m.put(i, path[-1], len(m.down[path[-1]]))
        path.append(i)
    link(N, m)
    compare(T, N, m)
    i = num(T.hole(1, '0123456789'[:n]))
    j = num(T.hole(1, '0123456789'[:n]))
    step(T, N, m, op, i, j)
    compare(T, N, m)


def several(T, n, k):
    """operations one after the other, from new nodes"""
    Node = T.mods['commonmark.node'].Node
    N = [Node('item', None) for _ in range(n)]
    m = Model(n)
    for i in range(1, n):
        if T.choose(2):
            N[0].append_child(N[i])
            m.put(i, 0, len(m.down[0]))
    for _ in range(k):
        op = OPS[num(T.hole(1, '01234'))]
        i = num(T.hole(1, '0123456789'[:n]))
        j = i if op == 'u' else num(T.hole(1, '0123456789'[:n]))
        step(T, N, m, op, i, j)
    compare(T, N, m)


def rendered(T, k):
    """edits show in the output, whatever the texts"""
    x = T.hole(1, cs_not('\n\r\0'))
    e = T.ref.esc(x)
    ast = parse(T, 'aa\n\n# bb\n\n***')
    Node = T.mods['commonmark.node'].Node
    a, b, c = kids(ast)
    A, B, C = '<p>aa</p>\n', '<h1>bb</h1>\n', '<hr />\n'
    p = Node('paragraph', [[1, 1], [1, 1]])
    t = Node('text', None)
    t.literal = x
    p.append_child(t)
    P = '<p>' + e + '</p>\n'
    which = T.choose(9)
    if which == 0:
        ast.append_child(p)
        w = A + B + C + P
    elif which == 1:
        ast.prepend_child(p)
        w = P + A + B + C
    elif which == 2:
        a.insert_after(p)
        w = A + P + B + C
    elif which == 3:
        a.insert_before(p)
        w = P + A + B + C
    elif which == 4:
        c.insert_after(a)
        w = B + C + A
    elif which == 5:
        c.insert_after(p)
        a.unlink()
        w = B + C + P
    elif which == 6:
        b.unlink()
        w = A + C
    elif which == 7:
        a.prepend_child(t)
        w = '<p>' + e + 'aa</p>\n' + B + C
    else:
        b.first_child.insert_before(t)
        a.first_child.insert_after(b.last_child)
        ast.append_child(a)
        w = '<h1>' + e + '</h1>\n' + C + '<p>aabb</p>\n'
    T.eq(T.pkg.HtmlRenderer().render(ast), w, 'edited tree')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, 6 if q else 7):
        for op in OPS:
            out.append((one, n, op))
    out += [(several, 3, 2), (several, 3, 3), (several, 4, 2),
            (several, 5, 1)]
    if not q:
        out += [(several, 3, 4), (several, 4, 3)]
    out.append((rendered, 1))
    return out
