"""HTML output is well-formed and everything from the text is escaped."""
from lib import *

BOUNDS = ('every text of at most 3 characters (thorough: 4), any Unicode '
          'scalar values; 2 arbitrary characters (thorough: 3), or more '
          'over the markup alphabet, inside about 60 contexts; with and '
          'without the safe, sourcepos and smart options; trees built by '
          'hand with 2 arbitrary characters in every field')
BOUNDS += OF_BLOCKS % '12 (thorough: 48)' + \
    OF_INLINES % '9'
BOUNDS += OF_MANY
OUTSIDE = ('the raw HTML of the text itself, which is passed on as it is '
           'unless safe; a softbreak option other than the default')

TAGS = {
    'p': [], 'h1': [], 'h2': [], 'h3': [], 'h4': [], 'h5': [], 'h6': [],
    'em': [], 'strong': [], 'pre': [], 'blockquote': [], 'ul': [], 'li': [],
    'br': [], 'hr': [], 'a': ['href', 'title'],
    'img': ['src', 'alt', 'title'], 'code': ['class'], 'ol': ['start'],
}
VOID = ['br', 'hr', 'img']
INLINE = ['em', 'strong', 'a', 'code', 'br', 'img']
LEAF = ['p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'pre']
OMIT = '<!-- raw HTML omitted -->'
ENTS = ['&amp;', '&lt;', '&gt;', '&quot;']
LOW = 'abcdefghijklmnopqrstuvwxyz0123456789-'


def entity(T, s, i):
    for e in ENTS:
        if s.startswith(e, i):
            return i + len(e)
    T.fail('a bare ampersand', s)


def scan(T, s, pos=False):
    """s is a sequence of known tags, properly nested, and escaped text"""
    i = 0
    n = len(s)
    stack = []
    while i < n:
        c = s[i]
        if c == '&':
            i = entity(T, s, i)
        elif c == '<':
            if s.startswith(OMIT, i):
                i += len(OMIT)
                continue
            i += 1
            closing = s[i] == '/'
            if closing:
                i += 1
            j = i
            while s[j] in LOW:
                j += 1
            name = s[i:j]
            T.require(name in TAGS, 'a known tag', name)
            if closing:
                T.require(s[j] == '>', 'end of a closing tag')
                T.require(len(stack) > 0 and stack[-1] == name,
                          'tags are nested', s)
                stack.pop()
                i = j + 1
                continue
            seen = []
            while s[j] == ' ' and s[j + 1] != '/':
                i = j + 1
                j = i
                while s[j] in LOW:
                    j += 1
                a = s[i:j]
                T.require(a in TAGS[name] or pos and a == 'data-sourcepos',
                          'a known attribute', a)
                T.require(a not in seen, 'no attribute twice')
                seen.append(a)
                T.require(s[j:j + 2] == '="', 'a quoted value')
                j += 2
                while s[j] != '"':
                    if s[j] == '&':
                        j = entity(T, s, j)
                    else:
                        T.require(s[j] != '<' and s[j] != '>',
                                  'escaped in values', s)
                        j += 1
                j += 1
            if name in VOID:
                T.require(s[j:j + 3] == ' />', 'end of a void tag', s)
                i = j + 3
            else:
                T.require(s[j] == '>', 'end of a tag', s)
                i = j + 1
            if name == 'img':
                T.require('src' in seen and 'alt' in seen, 'image')
            # what may be where
            leaf = len(stack) > 0 and (
                stack[-1] in LEAF or stack[-1] in INLINE)
            if name in INLINE:
                T.require(leaf or len(stack) > 0 and stack[-1] == 'li',
                          'inline tags are inside blocks', s)
                T.require(name == 'br' or 'code' not in stack,
                          'nothing inside code')
                T.require(name != 'a' or 'a' not in stack,
                          'no links in links')
            else:
                T.require(not leaf, 'no blocks inside inline content', s)
                if name == 'li':
                    T.require(len(stack) > 0 and stack[-1] in ('ul', 'ol'),
                              'items are in lists')
                else:
                    T.require(len(stack) == 0 or
                              stack[-1] in ('li', 'blockquote'),
                              'blocks are in containers', s)
            if name not in VOID:
                stack.append(name)
        else:
            T.require(c != '>' and c != '"', 'escaped text', s)
            if len(stack) == 0 or stack[-1] in ('ul', 'ol', 'blockquote'):
                T.require(c == '\n', 'no text between blocks', s)
            i += 1
    T.require(len(stack) == 0, 'tags are closed', s)
    T.require(n == 0 or s[n - 1] == '\n', 'ends with a line ending')


def wf(T, *parts):
    s = doc(T, parts)
    pos = T.choose(2)
    out = html(T, s, {'smart': True} if pos else None,
               {'safe': True, 'sourcepos': True} if pos else {'safe': True})
    T.observe(out)
    scan(T, out, pos == 1)


def raw(node):
    w = node.walker()
    e = w.nxt()
    while e is not None:
        if e['node'].t in ('html_block', 'html_inline'):
            return True
        e = w.nxt()
    return False


def plain(T, *parts):
    """without raw HTML there is no need of safe"""
    s = doc(T, parts)
    ast = parse(T, s)
    if raw(ast):
        return
    out = T.pkg.HtmlRenderer().render(ast)
    T.observe(out)
    scan(T, out)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def node(T, t, **kw):
    n = T.mods['commonmark.node'].Node(t, [[1, 1], [1, 1]])
    for k in kw:
        setattr(n, k, kw[k])
    return n


def built(T, k, cs):
    """Trees built by hand: fields are escaped, whatever is in them."""
    x = T.hole(k, cs)
    d = node(T, 'document')
    p = node(T, 'paragraph')
    d.append_child(p)
    which = T.choose(10)
    e = esc(x)
    if which == 0:
        p.append_child(node(T, 'text', literal=x))
        want = '<p>' + e + '</p>\n'
    elif which == 1:
        p.append_child(node(T, 'code', literal=x))
        want = '<p><code>' + e + '</code></p>\n'
    elif which in (2, 3):
        a = node(T, 'link', destination=x if which == 2 else 'u',
                 title=x if which == 3 else None)
        a.append_child(node(T, 'text', literal=x))
        p.append_child(a)
        want = '<p><a href="' + (e if which == 2 else 'u') + '"' + \
            (' title="' + e + '"' if which == 3 else '') + '>' + e + \
            '</a></p>\n'
    elif which in (4, 5):
        a = node(T, 'image', destination=x if which == 4 else 'u',
                 title=x if which == 5 else None)
        b = node(T, 'emph')
        b.append_child(node(T, 'text', literal=x))
        b.append_child(node(T, 'softbreak'))
        b.append_child(node(T, 'code', literal=x))
        b.append_child(node(T, 'html_inline', literal=x))
        a.append_child(b)
        p.append_child(a)
        want = '<p><img src="' + (e if which == 4 else 'u') + '" alt="' + \
            e + '\n' + e + e + '"' + \
            (' title="' + e + '"' if which == 5 else '') + ' /></p>\n'
    elif which == 6:
        p.unlink()
        d.append_child(node(T, 'code_block', literal=x + '\n', info=None))
        want = '<pre><code>' + e + '\n</code></pre>\n'
    elif which == 7:
        p.unlink()
        d.append_child(node(T, 'code_block', literal='', info='a' + x))
        w = ('a' + x).split()[0]
        want = '<pre><code class="language-' + esc(w) + \
            '"></code></pre>\n'
    elif which == 8:
        p.append_child(node(T, 'html_inline', literal=x))
        want = '<p>' + x + '</p>\n'
    else:
        h = node(T, 'heading', level=2)
        h.append_child(node(T, 'text', literal=x))
        p.unlink()
        d.append_child(h)
        want = '<h2>' + e + '</h2>\n'
    T.docs.append(x)
    T.eq(T.pkg.HtmlRenderer().render(d), want, 'fields are escaped')


def near(T, own):
    beside(T, own, wf)


def around(T, own):
    inside(T, own, wf)


def inline(T, own):
    within(T, own, plain)


def two(T, a, b):
    pairs(T, a, b, plain)


MARKUP = '*_[](!<`\\\n> -a1.#"&'
CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', 'a\n', '- a\n', '- a\n\n',
       '> a\n', '<div>', '[a]: b', '[a', '[a](', '[a](b "', '![a', '![a](',
       '![a](b "', '`', '*', '**a', '_', '<a ', '&', '\\', '[a]: b\n',
       '[a]: ', '[a]: b "', 'a\n=', 'a\n-', '- - ', '> - ', '- > ', '-\n',
       'a  \n', '\t', '```', '``` a&', '~~~ "', '<http:', '<a@', '[a][',
       '- ```\n', '- # ', '![<a>', '![![', '![`', '![*', '![a\n', '<!--',
       '[*a](b', '*[a*](b', '- a\n  - ', '2. ', '3)\n', '[![', '<http:a"']
END = ['', '](u "t")', '*`', '\n- b', '>', ')']


def escaped(T, s):
    """well-formed, and every character of the text in its place"""
    wf(T, s)
    T.eq(html(T, s), T.ref.to_html(s), 'HTML differs from the reference')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, wf) + \
        odds(q, escaped) + \
        drops(q, wf, 9)


def own(tier):
    q = tier == 'quick'
    out = [(wf, k) for k in range(0, 4 if q else 5)]
    out += [(plain, k) for k in range(1, 4 if q else 5)]
    out += [(built, 1, None), (built, 2, None)]
    if not q:
        out.append((built, 3, None))
    for c in CTX:
        out.append((wf, c, 2 if q else 3))
        if c not in ('<div>', '<!--', '![<a>'):
            out.append((plain, c, (2 if q else 4, MARKUP), END))
    out += [(wf, (5 if q else 7, '*_a`\n')), (wf, (5 if q else 7, '[]!a(')),
            (wf, '[a]: b\n', (5 if q else 6, '[]!a')),
            (wf, (6 if q else 8, '- \na')), (wf, (6 if q else 8, '>- \n')),
            (plain, '[a]: <b"', 1, '> "', 1, '&<c"\n\n![<', 1, '][a]'),
            (plain, '![a"<', 1, '](b"c (', 1, '"<))'),
            (wf, '![a"<', 1, '](', (1, '<>"( a&'), 'b"c ("', (1, '<>")a&'), '<>'),
            (plain, '``` a"<', 1, '\n', 2, '\n')]
    # every place text can come out of
    hot = [1, Seq((1, '"<&>')), Seq('"', 1), Seq('<', 1)]
    for a, b in (('![a ![b', '](c)](d)'), ('![a [b', '](c) e](d)'),
                 ('![a ![b](c "', '")](d)'), ('![`', '`](d)'),
                 ('![*a', '*](d)'), ('![**a ![b *', '* c](e)**](d)'),
                 ('[![a', '](b)](c)'), ('[![a](b "', '")](c)'),
                 ('![a\n', '](b)'), ('![a  \n', '](b)'), ('![', '][]'),
                 ('![a](b\n"', '")'), ('[a](b \'', '\')'),
                 ('[a](b (', '))'), ('[a]: b "', '"\n\n![x][a] [a]'),
                 ('[a]: <', '>\n\n![x][a] [a]'), ('`` ', ' ``'),
                 ('```\n', '\n```'), ('``` ', ' x\n```'), ('~~~', '\n'),
                 ('    ', '\n'), ('# ', ' #'), ('', '\n==='), ('- ', ''),
                 ('> ', ''), ('<http:', '>'), ('<a', '@b.c>'), ('\\', ''),
                 ('&quot;', '&lt;'), ('&#34;', '&#60;'), ('![&quot;', '](<&quot;>)'),
                 ('![<http:', '>](b)'), ('![a <b c="', '"> d](e)'),
                 ('![a ![b ![c', '](d)](e)](f)'), ('*![a', '](b)*')):
        for h in hot:
            out.append((plain, a, h, b))
            out.append((wf, a, h, b))
    for p in most(q, PIECES):
        out += [(near, p), (around, p)]
    for x in ('a', '"', '<', '&', '>', '![', '](u "', '`', '*'):
        out.append((inline, x))
    for a, b in (('"', '"'), ('[', '](u)'), ('![', '](u)'), ('<', '>')):
        out.append((two, a, b))
    return out
