"""The parser returns a well-formed tree."""
from lib import *

BOUNDS = ('every text of at most 3 characters (thorough: 4), any Unicode '
          'scalar values; 2 arbitrary characters (thorough: 3), or more '
          'over the markup alphabet, inside about 50 contexts')
BOUNDS += OF_BLOCKS % '12 (thorough: 48)' + \
    OF_INLINES % '16' + \
    OF_MANY
OUTSIDE = 'texts that need more arbitrary characters at once'

BLOCKS = ['block_quote', 'list', 'paragraph', 'heading', 'code_block',
          'html_block', 'thematic_break']
INLINES = ['text', 'softbreak', 'linebreak', 'emph', 'strong', 'link',
           'image', 'code', 'html_inline']
HOLDS = {
    'document': BLOCKS, 'block_quote': BLOCKS, 'item': BLOCKS,
    'list': ['item'], 'paragraph': INLINES, 'heading': INLINES,
    'emph': INLINES, 'strong': INLINES, 'link': INLINES, 'image': INLINES,
}
NOTEMPTY = ['list', 'emph', 'strong']


def isstr(x):
    return isinstance(x, str)


def links(T, node, parent):
    """parent, sibling and child links agree with each other"""
    T.require(node.parent is parent, 'parent link')
    c = node.first_child
    prev = None
    n = 0
    while c is not None:
        T.require(c.prv is prev, 'previous link')
        links(T, c, node)
        prev = c
        c = c.nxt
        n += 1
        T.require(n < 10000, 'siblings end')
    T.require(node.last_child is prev, 'last child')


def check(T, node, inlink, odd):
    t = node.t
    cs = kids(node)
    if t not in HOLDS:
        T.require(len(cs) == 0, 'a leaf has no children', t)
    for c in cs:
        T.require(c.t in HOLDS[t], 'what may be inside what', t + c.t)
    if t in NOTEMPTY:
        T.require(len(cs) > 0, 'never empty', t)
    if t == 'paragraph' and not odd:
        T.require(len(cs) > 0, 'a paragraph is not empty')
    if t in ('text', 'code', 'html_inline', 'html_block', 'code_block'):
        T.require(isstr(node.literal), 'literal is a text', t)
        if t in ('html_inline', 'html_block'):
            T.require(len(node.literal) > 0, 'literal is not empty', t)
    else:
        T.require(node.literal is None, 'no literal', t)
    if t in ('link', 'image'):
        T.require(isstr(node.destination), 'destination is a text')
        T.require(isstr(node.title), 'title is a text')
    else:
        T.require(node.destination is None and node.title is None,
                  'no destination')
    if t == 'link':
        T.require(not inlink, 'no links in links')
    if t == 'heading':
        T.require(isinstance(node.level, int) and node.level >= 1 and
                  node.level <= 6, 'heading level')
    if t == 'code_block':
        T.require(isstr(node.info) if node.is_fenced else node.info is None,
                  'info string of fenced code, and no other')
        lit = node.literal
        T.require(len(lit) == 0 or lit[-1] == '\n',
                  'code ends with a line ending')
    if t in ('list', 'item'):
        d = node.list_data
        T.require(d['type'] in ('bullet', 'ordered'), 'list type')
        if t == 'list':
            T.require(d['tight'] is True or d['tight'] is False, 'tight')
            if d['type'] == 'bullet':
                T.require(d['bullet_char'] in ('*', '-', '+'), 'bullet')
            else:
                T.require(isinstance(d['start'], int) and d['start'] >= 0
                          and d['start'] <= 999999999, 'start')
                T.require(d['delimiter'] in ('.', ')', 'period', 'paren'),
                          'delimiter')
            for c in cs:
                e = c.list_data
                T.require(e['type'] == d['type'], 'item type')
                if d['type'] == 'bullet':
                    T.require(e['bullet_char'] == d['bullet_char'],
                              'item bullet')
                else:
                    T.require(e['delimiter'] == d['delimiter'],
                              'item delimiter')
    if t in ('paragraph', 'heading') and cs:
        T.require(cs[-1].t not in ('softbreak', 'linebreak'),
                  'no break at the end of a block')
        T.require(cs[0].t != 'softbreak', 'nor a soft one at the start')
    for c in cs:
        check(T, c, inlink or t == 'link', odd)


def wellformed(T, *parts):
    s = doc(T, parts)
    ast = parse(T, s)
    T.require(ast.t == 'document', 'document')
    links(T, ast, None)
    T.require(ast.nxt is None and ast.prv is None, 'root has no siblings')
    check(T, ast, False, '\v' in s or '\f' in s)
    n = ast.walker()
    e = n.nxt()
    while e is not None:
        T.require(not e['node'].is_open or e['node'].t not in HOLDS['item']
                  and e['node'].t not in ('item', 'document'),
                  'blocks are closed')
        e = n.nxt()


def near(T, own):
    beside(T, own, wellformed)


def around(T, own):
    inside(T, own, wellformed)


def inline(T, own):
    within(T, own, wellformed)


def two(T, a, b):
    pairs(T, a, b, wellformed)


def many(T, *ps):
    """repeated"""
    wellformed(T, *ps)


MARKUP = '*_[](!<`\\\n> -a1.#"'
CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', 'a\n', '- a\n',
       '- a\n\n', '> a\n', '<div>', '[a]: b', '[a', '[a](b)', '![a](b)',
       '`', '*', '**a', '_', '<a ', '&', '\\', '[a]: b\n', 'a\n=', 'a\n-',
       '- - ', '> - ', '- > ', '-\n', 'a  \n', '\t', '-\t', '[a][',
       '[a]\n\n[', '1) a\n', '- ```\n', '-     a\n', '>\n', '***a** b',
       '[a]: b\n===\n', '- [a]: b\n', '> [a]: b\n', '*a\n', '- a\n  - b\n',
       '[![a](b)](c)', '[a]: b\n\n[[a](b)](c)', '*[a*](b)', '## #', '* *']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, wellformed) + \
        odds(q, wellformed) + \
        drops(q, wellformed, 5)


def own(tier):
    q = tier == 'quick'
    out = [(wellformed, k) for k in range(0, 4 if q else 5)]
    for c in CTX:
        out.append((wellformed, c, 2 if q else 3))
        out.append((wellformed, c, (3 if q else 5, '*_[](!<`\n> -a1.'[:12]
                                    if q else MARKUP)))
        out.append((wellformed, (2, '*_[!`\n> -'), c, (1 if q else 2, MARKUP)
                    ))
    out.append((wellformed, (5, '*_a \n')))
    out.append((wellformed, (5, '[]!a(')))
    out.append((wellformed, '[a]: b\n', (5, '[]!a')))
    out.append((wellformed, (6, '- \na')))
    out.append((wellformed, (6, '>- \n')))
    out.append((wellformed, (6, '`a\n ~')))
    for p in most(q, PIECES):
        out += [(near, p), (around, p)]
    for x in ('a', '*', '[', '](u)', '![', '`', '<b', '**', '_', '\n', '&', ']',
              '"', '!', '[a', '>'):
        out.append((inline, x))
    for a, b in (('*', '*'), ('[', ']'), ('[', '](u)'), ('**', '*'),
                 ('_', '_'), ('![', '](u)'), ('', ''), ('`', '`')):
        out.append((two, a, b))
    for p in ('*', '_', '[', '![', '`', '> ', '- ', '1. ', ']', '**a ',
              '*a', '[a](', 'a\n', '\n', ' ', '<', '#', '=', '-', '\t'):
        out.append((many, Times(p, *(BIG[3::4] if q else BIG)), 1))
        out.append((many, Times(p, *(BIG[2:17:4] if q else BIG)), 'a',
                    Times('*', 1, 2, 3, 9), 1 if not q else (1, MARKUP)))
    return out
