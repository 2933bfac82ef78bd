"""Rendering and dumping change nothing and leave nothing out."""
import json

from lib import *

BOUNDS = ('every text of at most 2 characters (thorough: 3); 1 or 2 '
          'arbitrary characters in about 50 contexts; all renderers and '
          'dumps in any order of 2')
BOUNDS += OF_BLOCKS % '8 (thorough: 48)' + \
    OF_INLINES % '40'
BOUNDS += OF_MANY
OUTSIDE = ('texts that need more arbitrary characters at once; the text '
           'form of JSON, which the standard library makes')


def snap(n, parent=None):
    """a node with everything it holds, and its links"""
    d = n.__dict__
    out = []
    for k in sorted(d):
        v = d[k]
        if k in ('parent', 'first_child', 'last_child', 'prv', 'nxt'):
            out.append((k, id(v) if v is not None else None))
        elif isinstance(v, dict):
            out.append((k, [(j, v[j]) for j in sorted(v)]))
        elif isinstance(v, list):
            out.append((k, [list(x) if isinstance(x, list) else x
                            for x in v]))
        else:
            out.append((k, v))
    return [id(n), out, [snap(c, n) for c in kids(n)]]


def act(T, ast, k):
    if k == 0:
        return T.pkg.HtmlRenderer().render(ast)
    if k == 1:
        return T.pkg.ReStructuredTextRenderer().render(ast)
    if k == 2:
        return json.loads(T.pkg.dumpJSON(ast))
    if k == 3:
        T.pkg.dumpAST(ast)
        return T.printed()
    return T.pkg.HtmlRenderer({'safe': True, 'sourcepos': True}).render(ast)


def pure(T, *ps):
    """one after the other is as each alone; the tree stays as it is"""
    s = doc(T, ps)
    ast = parse(T, s, {'smart': True} if T.choose(2) else None)
    before = snap(ast)
    i = T.choose(5)
    j = T.choose(5)
    a = act(T, ast, i)
    T.same(snap(ast), before, 'the tree is unchanged')
    b = act(T, ast, j)
    T.same(act(T, ast, i), a, 'the same output again')
    T.same(act(T, ast, j), b, 'the same output again')
    T.same(snap(ast), before, 'the tree is unchanged')
    T.observe(a)


def partial(T, *ps):
    """parts of a tree can be rendered and dumped by themselves, and then
    the whole"""
    s = doc(T, ps)
    ast = parse(T, s)
    before = snap(ast)
    want = act(T, ast, 0)
    for n in kids(ast):
        if n.t != 'paragraph':
            act(T, n, 0)
        act(T, n, 2)
        act(T, n, 3)
    T.same(snap(ast), before, 'the tree is unchanged')
    T.eq(act(T, ast, 0), want, 'the same output again')


def events(ast):
    """the visits of a walk, by recursion"""
    out = [(ast, True)]
    if ast.t in ('document', 'block_quote', 'list', 'item', 'paragraph',
                 'heading', 'emph', 'strong', 'link', 'image'):
        for c in kids(ast):
            out += events(c)
        out.append((ast, False))
    return out


def flat(x):
    out = []
    for d in x:
        out.append(d)
        out += flat(d.get('children', []))
    return out


def faithful(T, *ps):
    """The entries of the JSON form are the visits of a walk in order, with
    everything that is in the nodes."""
    s = doc(T, ps)
    ast = parse(T, s)
    got = flat(json.loads(T.pkg.dumpJSON(ast)))
    ev = events(ast)
    T.eq(len(got), len(ev), 'one entry for each visit')
    for g, (n, entering) in zip(got, ev):
        T.eq(g['type'], n.t, 'type')
        for k in ('literal', 'title', 'info', 'destination',
                  'string_content'):
            v = getattr(n, k)
            if v:
                T.eq(g.get(k), v, k)
            else:
                T.require(not g.get(k), 'nothing that is not there')
        if n.list_data:
            for k in n.list_data:
                T.eq(g['list_data'][k], n.list_data[k], 'list data')
        for k in g:
            T.require(k in ('type', 'literal', 'title', 'info', 'children',
                            'destination', 'string_content', 'list_data',
                            'level'),
                      'known keys')


def shown(T, *ps):
    """The dump shows every visit, and the literals."""
    s = doc(T, ps)
    ast = parse(T, s)
    T.pkg.dumpAST(ast)
    out = T.printed()
    T.observe(out)
    got = []
    for ln in out.split('\n'):
        x = ln.lstrip('\t')
        if x.startswith('-> '):
            x = x[3:]
        if x[:1] == '[' and x[-1:] == ']' and not x.startswith('[start') \
           and len(x) > 3:
            got.append(x[1:-1])
    T.eq(got, [ast.t] + [n.t for n, e in events(ast)], 'every visit')
    for n, e in events(ast):
        if n.literal and '\n' not in n.literal:
            T.require('Literal: ' + n.literal + '\n' in out, 'literal')
        if n.destination:
            T.require('Destination: ' + n.destination + '\n' in out,
                      'destination')
        if n.title and '\n' not in n.title:
            T.require('Title: ' + n.title + '\n' in out, 'title')
        if n.info:
            T.require('Info: ' + n.info + '\n' in out, 'info')
        if n.list_data:
            T.require('[type] = ' + n.list_data['type'] + '\n' in out,
                      'list type')


CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', '``` x\ny', 'a\n', '- a\n',
       '- a\n\n', '> a\n', '<div>', '[a]: b\n\n[a]', '[a](b "c")', '![a](b)',
       '![a *b* `c`](d "e")', '`a`', '*a*', '**a** ', '<a>', '&amp;', '\\',
       'a\n===\n', '- - ', '> - ', '- > ', 'a  \n', '2. a\n3. ', '"a" ',
       '- a\n  - b\n\n', '***\n', '<http:a>', '> # a\n> ', '~~~\n\n',
       '1) a\n\n   b\n', '- ```\n  a\n', '[![a](b)](c)', '# *a* `b`\n',
       '<!-- a -->\n', '[a *b*](c)']


def near(T, own):
    beside(T, own, faithful)


def around(T, own):
    inside(T, own, faithful)


def inline(T, own):
    within(T, own, faithful)


def pure2(T, own):
    f = T.choose(3)
    (inside if f == 0 else within if f == 1 else beside)(T, own, purely)


def purely(T, s):
    ast = parse(T, s)
    before = snap(ast)
    for i in range(5):
        act(T, ast, i)
        T.same(snap(ast), before, 'the tree is unchanged')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, faithful) + \
        odds(q, faithful) + \
        drops(q, faithful, 9)


def own(tier):
    q = tier == 'quick'
    m = '*_`[]()<>!&\\#-+ \n1.a"'
    out = []
    for k in range(0, 3 if q else 4):
        out += [(pure, k) if k < 2 or not q else (pure, (2, m)),
                (faithful, k), (partial, k)]
    out.append((shown, (2, m[:-1])))
    for c in CTX:
        out += [(pure, c, (1, '*`[ \n>-a"')), (faithful, c, 1),
                (faithful, 1, c), (partial, c, (2, '*`[\n>-a')),
                (faithful, c, (2, m)), (shown, c, (1, '*`!\n> -a"<&')),
                (pure, CTX, c)]
        if not q:
            out += [(faithful, c, 2), (pure, c, 1), (partial, c, 2)]
    for c in ('[](u "t")', '![](u "t")', '[]()', '[a]()', '[](u)', '[](<> "")',
              '[a](u "")', '```x\n', '``` x\n\n', '#\n', '-\n', '>\n', '7.\n',
              '0) a\n', '<a:>', '[\\ ](u "t")', '![![](u "t")](v "w")', '` `',
              '```\n\n\n', '[![](u "t")](v "w")', '*a* [](u "t") `b`', '* * *',
              '- ``` x\n', '<b>', '<b>\n', '&#0;', '&nbsp;', '0. \n', '000. a\n',
              '-\n- a\n', '- - -a\n', '+ a\n* b\n', '1. a\n1) b\n'):
        out += [(faithful, c, 1), (faithful, 1, c), (partial, c, 1),
                (shown, c, (1, '*`!\n> -a"<&')), (pure, c)]
        out.append((inline, c))
    for p in most(q, PIECES, 6):
        out += [(near, p), (around, p)]
    for p in most(q, PIECES, 24):
        out.append((pure2, p))
    for x in ('a', '*', '[', '](u "t")', '![', '`', '<b>'):
        out.append((inline, x))
    return out
