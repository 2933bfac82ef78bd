"""Shared by the properties: building inputs, running the API."""


def doc(T, parts):
    """Text out of a template: str is literal, n a hole of n arbitrary
    characters, (n, cs) a hole over the class cs, (lo, hi, cs) a hole of any
    length in lo..hi, a list a choice between templates (str, number, tuple
    of parts by 'seq')."""
    out = ''
    for p in parts:
        out = out + part(T, p)
    return out


def part(T, p):
    if isinstance(p, str):
        return p
    if isinstance(p, int):
        return T.hole(p)
    if isinstance(p, list):
        return part(T, p[T.choose(len(p))])
    if isinstance(p, Seq):
        return doc(T, p.parts)
    if isinstance(p, Rep):
        k = p.lo + T.choose(p.hi - p.lo + 1)
        return part(T, p.p) * k if isinstance(p.p, str) else \
            doc(T, [p.p] * k)
    if isinstance(p, Times):
        return p.p * p.ks[T.choose(len(p.ks))]
    if len(p) == 2:
        return T.hole(p[0], p[1])
    return T.upto(p[1], p[2], p[0])


class Seq(object):
    def __init__(self, *parts):
        self.parts = parts

    def __repr__(self):
        return 'Seq%r' % (self.parts,)


class Times(object):
    """p, as often as one of ks says"""

    def __init__(self, p, *ks):
        self.p = p
        self.ks = ks

    def __repr__(self):
        return 'Times(%r,%r)' % (self.p, self.ks)


class Rep(object):
    """p, lo to hi times"""

    def __init__(self, p, lo, hi):
        self.p = p
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'Rep(%r,%d,%d)' % (self.p, self.lo, self.hi)


def html(T, s, popts=None, ropts=None):
    T.docs.append(s)
    p = T.pkg.Parser(popts) if popts is not None else T.pkg.Parser()
    r = T.pkg.HtmlRenderer(ropts) if ropts is not None else \
        T.pkg.HtmlRenderer()
    return r.render(p.parse(s))


def diff(T, *parts):
    """The HTML of the template's text is what the reference says."""
    s = doc(T, parts)
    T.eq(html(T, s), T.ref.to_html(s), 'HTML differs from the reference')


def sdiff(T, *parts):
    s = doc(T, parts)
    T.eq(html(T, s, {'smart': True}), T.ref.to_html(s, True),
         'HTML of smart text differs from the reference')


def cs_not(chars):
    """every character but those"""
    from sym import charset
    return charset.SCALAR - charset.chars(chars)


def lines_of(s):
    """lines of s, '\\n' the only line ending in it"""
    out = s.split('\n')
    if len(out[-1]) == 0:
        out.pop()
    return out


def parse(T, s, popts=None):
    T.docs.append(s)
    p = T.pkg.Parser(popts) if popts is not None else T.pkg.Parser()
    return p.parse(s)


def kids(n):
    out = []
    c = n.first_child
    while c is not None:
        out.append(c)
        c = c.nxt
    return out


def tree(n):
    """What a node says: kind, fields, children; adjacent texts joined."""
    out = []
    for c in kids(n):
        if c.t == 'text' and out and out[-1][0] == 'text':
            out[-1] = ['text', [out[-1][1][0] + c.literal], []]
        else:
            out.append(tree(c))
    t = n.t
    f = []
    if t in ('text', 'code', 'html_inline', 'html_block'):
        f = [n.literal]
    elif t == 'code_block':
        f = [n.literal, n.info or '']
    elif t == 'heading':
        f = [n.level]
    elif t in ('link', 'image'):
        f = [n.destination, n.title or '']
    elif t == 'list':
        d = n.list_data
        f = [d['type'], d['tight']]
        if d['type'] == 'bullet':
            f.append(d['bullet_char'])
        else:
            f.append(d['start'])
            f.append(d['delimiter'])
    return [t, f, out]


# what the bounds say of the templates below
OF_BLOCKS = ('; %s blocks of the construct next to each of 48 constructs '
             'and in each of 21 kinds of container, with an arbitrary '
             'character')
OF_INLINES = ('; %s pieces of inline text in each of 57 inline contexts, '
              'with an arbitrary character')
OF_MANY = ('; repetitions of up to 300 of what may be repeated; %d texts '
           'with parts of up to 301 characters; the same characters in '
           'every place of up to 43 texts; 18 texts that look like references '
           'or escapes in up to 24 places; up to 23 constructs twice with '
           'contents that are alike; up to 20 chains of containers with '
           'any of their markers left out on the second line, around up to 17 '
           'blocks' % 46)


# ---- constructs, to be put next to and inside each other ----

PIECES = [
    'a\n', 'a\nb\n', '# a\n', 'a\n===\n', '***\n', '---\n', '- a\n', '-\n',
    '1. a\n', '7) a\n', '- a\n  - b\n', '- a\n\n- b\n', '> a\n', '>\n',
    '> - a\n', '- > a\n', '> > a\n', '    a\n', '\ta\n\n\tb\n', '```\na\n```\n',
    '~~~ a\n', '```\n', '<div>\n', '<i>\n', '<!-- a\n\n-->\n', '[a]: u\n',
    '[a]: u\n"t"\n', '\n', '\n\n', '[a]\n', '*a\n', '`a\n', 'a  \n', 'a\\\n',
    '- ```\n  a\n', '+ [a]: u\n', '> ```\n', '> <div>\n', '-\n\n  a\n',
    '10. a\n\n    b\n', '- # a\n', '-     a\n', '  a\n', '![a](u "t")\n',
    '<http://a>\n', '&amp;\n', '=\n', '==\n',
]
HOLDERS = [('', ''), ('> ', '> '), ('>', '>'), ('- ', '  '), ('1. ', '   '),
           ('-    ', '     '), ('> > ', '> > '), ('> - ', '>   '),
           ('- > ', '  > '), ('- 1. ', '     '), ('- a\n\n  ', '  '),
           ('- a\n  ', '  '), ('> a\n> ', '> '), ('123456789) ', ' ' * 11),
           ('- - - - ', ' ' * 8), ('> > > > > ', '> > > > > '),
           ('>\t', '>\t'), ('-\t', '\t'), ('   - ', '     '),
           ('   > ', '   > '), ('-\n  ', '  ')]
INLINES = [
    '%s', '*%s*', '**%s**', '_%s_', '__%s__', '***%s***', '[%s](u)',
    '![%s](u)', '[%s][a]\n\n[a]: u', '[%s]: u', '# %s', '%s\n===',
    '> %s\n> b', '- %s\n  b\n- c', 'a\n%s\nb', '"%s"', "'%s'", '`%s', '<%s',
    '\\%s', '[%s', '![%s', '&%s', '*%s', '**%s b*', '_%s', 'a%sb',
    'a %s b', '(%s)', '[*%s*](u)', '*[%s](u)*', '![![%s](u)](v)',
    '[a](u "%s")', '[a](<%s>)', '[a](%s)', '``%s``', '%s%s', '%s  \n%s',
    '[%s](u)[%s](v)', '*%s* _%s_', '[a]\n\n[a]: %s', '    %s', '```%s\n%s',
    '<b c="%s">', '<!--%s-->', '1. %s', '* * %s', '\u2014%s\xa0', '\xe9%s\xe9',
    '[%s](u)%s', '%s](u)', '%s)', '%s>', '%s*', '%s`', '%s_', '%s]',
]
BIG = [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 31, 32, 33, 40, 63,
       64, 65, 100, 127, 128, 129, 255, 256, 257, 300]


# what has a length: the parts in tuples are repeated, as often as LONG says
LONG = [21, 33, 41, 65, 73, 81, 101, 121, 129, 201, 257, 301]
LONGS = [
    ['# ', ('a',)], [('a',), '\n==='], ['`', ('`',), 'a ` b', ('`',), '`'],
    ['``', ('`',), '\na\n', ('`',), '\n', ('`',), '``\nb'],
    ['~~', ('~',), ' ', ('b',), '\n', ('a',), '\n', ('~',), '~~\nc'],
    ['[', ('a',), '](u) '], ['[a](', ('b',), ')'],
    ['[a](<', ('b ',), '> "', ('c ',), '")'], ['![', ('a',), '](u)'],
    ['<a:', ('b',), '>'], ['<', ('a',), '@b.c>'],
    ['<', ('a',), ' b="', ('c',), '">'], ['</', ('a',), '>'],
    [('*',), 'a', ('*',)], [('_',), 'a', ('_',)], ['a', ('*',), 'b*'],
    [('\\',), '*a*'], ['a', ('-',)], ['"', ('a ',), '"'], ['a', ('.',)],
    ['a', (' ',), '\nb'], ['a\n', (' ',), 'b'], ['    ', (' ',), 'b'],
    ['- ', ('a',), '\n', ('\n',), '- b'], ['- ', ('a',), '\n  - b\n- c'],
    ['[a]: ', ('u',), ' "', ('t',), '"\n\n[a]'],
    ['[', ('a',), ']: u\n\n[', ('a',), ']'], ['<!--', ('a ',), '-->\nb'],
    [('*',)], [('- ',), 'a'], [('> ',), 'a'], [('#',), ' a'], [('a',), '\nb'],
    ['a\n', ('a',), '\nb\n', ('c',)], ['> ', ('a ',), '\nb\n> ', ('c ',)],
    ['1. ', ('a',), '\n\n   ', ('b',)], ['    ', ('a',), '\n\n    b'],
    ['&', ('a',), ';'], ['a  ', (' ',), '\nb'], ['<div ', ('a ',), '>\nb'],
    [('[',), 'a', ('](u)',)], ['*a ', ('b ',), 'c*'], [('a *b ',), 'c*'],
    ['> - ', ('a',), '\n>\n>   b'], [('`a` ',), '`b'], [('&lt;',), '&'],
]


def lengthy(T, k, cs, law=None):
    """something long, and a character after it"""
    n = LONG[T.choose(len(LONG))]
    s = ''
    for p in LONGS[k]:
        s = s + (p[0] * n if isinstance(p, tuple) else p)
    c = T.hole(1, cs)
    both(T, s + c, law)


def longs(q, law=None, step=1):
    return [(lengthy, k, ' a' if q else None) + (() if law is None else (law,))
            for k in range(0, len(LONGS), step)]


# the same characters in several places at once
TWICE = [
    '[{}]({} "{}")', '![{}]({} "{}")', '[{}]: {} "{}"\n\n[{}]',
    '[{}][{}]\n\n[{}]: {}', '[{}][]{}[{}]\n\n[{}]: {}\n[{}]: {}x',
    '```{}\n{}\n```', '```{}\n{}', '~~~ {} {}\n{}\n\n{}\n~~~\n{}',
    '- {}\n- {}', '- {}\n\n- {}', '- {}\n  - {}\n    - {}', '{}\n{}',
    '{}\n\n{}', '> {}\n> {}', '> {}\n{}', '# {} {}', '# {}\n{}\n# {}',
    '{}\n===\n{}\n---\n{}', '*{}* **{}** _{}_', '*{}**{}***{}*',
    '`{}`{}`{}`', '``{}`{}`` {}', 'x<{}>{}</{}>', '<{}>\n{}\n</{}>',
    '<{}:{}>', '<{}@{}.{}>', '&{};{}', '\\{}{}\\{}', '{}  \n{}\\\n{}',
    '    {}\n    {}\n{}', '1. {}\n2. {}\n{}', '"{}" \'{}\' {}',
    '[{}]({})[{}]({})', '![[{}]({})]({})', '[![{}]({})]({})',
    '[a]: {}\n[a]: {}\n\n[a] {}', '{}{}{}{}', '{}a{}b{}', '{} {} {}',
    '> - {}\n{}\n> {}', '- {}\n{}\n  {}', '<!--{}-->{}<?{}?>',
    '[{}](<{}> \'{}\') *{}*',
]


def twice(T, k, cs, law=None):
    x = T.pick('', 'u') + T.hole(1, cs)
    both(T, TWICE[k].replace('{}', x), law)


# texts that look like references or escapes after they are read
SHOWN = ['&amp;amp;', '&amp;quot;', '&amp;lt;', '&amp;gt;', '\\&gt;',
         '&#38;#38;', '&amp;#x22;', '&amp;copy;', '%26quot;', '&quot;quot;',
         '&lt;b&gt;', '&amp;', '\\\\&amp;amp;', '&amp;amp;amp;', '&#92;*',
         '&lt;!--', '%2526', '&lt;/a&gt;']
SHOWS = ['%s', '`%s`', '[a](b "%s")', '![a](b \'%s\')', '[a](%s)', '![a](%s)',
         '![%s](b)', '[a](<%s>)', '```%s\n```', '``` %s x\n%s\n```',
         '    %s', '[a]: %s "%s"\n\n[a]', '[a]: b (%s)\n\n![a]', '# %s',
         '<a:%s>', '<a b="%s">', '<div>\n%s', '*%s*', '[%s][]\n\n[%s]: b',
         '- %s', '"%s"', '![![%s](b)](c)', '![`%s`](c)', '![<i>%s](c)']


def shown(T, k, cs, law=None):
    x = T.pick(*SHOWN)
    n = T.choose(3)
    if n:
        c = T.hole(1, cs)
        x = x + c if n == 1 else c + x
    both(T, SHOWS[k].replace('%s', x), law)


# two texts that look alike in one way or another
SAME = ['[a](%s)', '[a](b "%s")', '[%s]\n\n[%s]: u', '```%s\n%s\n```', '`%s`',
        '<a:%s>', 'z<a b="%s">', '&%s;', '# %s', '<div>%s', '*%s*', '\\%s',
        '[a]: %s\n\n[a]', '![%s](a)', '- %s', '    %s', '`%s', '**%s', '[%s',
        '<%s@b.c>', '"%s" %s', '[%s]: /%s\n\n[%s]', '%s--...']


def likes(T, cs):
    c = T.hole(1, cs)
    x = 'x' * T.pick(20, 70, 150)
    return T.pick((x + c, x + 'a'), (c + x, 'a' + x), (c + 'a', c + 'A'),
                  ('a' + c, c + 'a'), ('ab', 'ab' + c), ('auml', 'Auml'),
                  ('a' + c, 'a' + c + c))


def alike(T, k, cs, law=None):
    u, v = likes(T, cs)
    x = SAME[k].replace('%s', u)
    y = SAME[k].replace('%s', v)
    both(T, x + '\n\n' + y + '\n', law)


# containers in containers; later lines may lack some of the markers
CHAINS = ['>', '-', '1', '>>', '>-', '>1', '->', '--', '-1', '1>', '1-',
          '>>>', '>->', '->>', '-->', '>--', '->-', '1>-', '>1>', '---']
OPENERS = ['a', '# a', '```', '~~~ a', '    a', '<div>', '<!-- a', '<i>',
           '[a]: b', '- a', '* * *', 'a  ', '', '> a', '`a', '*a', '[a']
FIRST = {'>': '> ', '-': '- ', '1': '1. '}
LATER = {'>': '> ', '-': '  ', '1': '   '}


def dropped(T, ch, o, cs, law=None):
    s = ''.join([FIRST[c] for c in ch]) + OPENERS[o] + '\n'
    for c in ch:
        if T.choose(2):
            s = s + LATER[c]
    s = s + T.hole(1, cs) + 'a\n'
    n = T.choose(3)
    if n == 1:
        s = s + ''.join([LATER[c] for c in ch]) + 'z'
    elif n == 2:
        s = s + '\n' + ''.join([LATER[c] for c in ch[:-1]]) + 'z'
    both(T, s, law)


MARKS = ' \ta>-`~#<*+=1.[]:\\'


def odds(q, law=None, step=1):
    more = () if law is None else (law,)
    cs = ' a*`"&;<>\\[]()\n-_!#1.:\'~\t=' if q else None
    return [(twice, k, cs) + more for k in range(0, len(TWICE), step)] + \
        [(shown, k, ' ;a&"<\\' if q else cs) + more
         for k in range(0, len(SHOWS), step)] + \
        [(alike, k, ' b`*])' if q else cs) + more
         for k in range(0, len(SAME), step)]


def drops(q, law=None, step=1, only=range(len(OPENERS))):
    more = () if law is None else (law,)
    n = 0
    out = []
    for ch in CHAINS:
        for o in only:
            n += 1
            if n % step == 0:
                out.append((dropped, ch, o, MARKS if q else None) + more)
    return out


def held(T, s, h):
    """the lines of s inside the container h"""
    out = ''
    first = True
    for ln in lines_of(s):
        out = out + h[0 if first else 1] + ln + '\n'
        first = False
    return out


def beside(T, own, law=None):
    """own next to every construct, 1 arbitrary character between"""
    o = doc(T, [own])
    n = T.choose(4)
    x = T.pick(*PIECES)
    c = T.hole(1)
    if n == 0:
        s = x + c + o
    elif n == 1:
        s = o + c + x
    elif n == 2:
        s = x + o + c
    else:
        s = c + o + x + o
    both(T, s, law)


def inside(T, own, law=None):
    """own in every container, with an arbitrary character changed into it"""
    o = doc(T, [own])
    h = HOLDERS[T.choose(len(HOLDERS))]
    n = T.choose(3)
    c = T.hole(1)
    if n == 0:
        s = held(T, o, h) + c + 'z\n'
    elif n == 1:
        s = held(T, o + c + 'z\n', h)
    else:
        s = held(T, o, h) + h[1] + c + '\n' + held(T, o, h)
    both(T, s, law)


def within(T, own, law=None):
    """own in every inline construct, with an arbitrary character beside"""
    f = T.pick(*INLINES)
    n = T.choose(2)
    c = T.hole(1)
    o = doc(T, [own])
    x = o + c if n else c + o
    parts = f.split('%s')
    s = parts[0] + x + parts[1] if len(parts) > 1 else f
    for p in parts[2:]:
        s = s + o + p
    both(T, s, law)


def pairs(T, a, b, law=None):
    """two inline constructs in each other"""
    f = T.pick(*INLINES)
    g = T.pick(*INLINES)
    p = f.split('%s')
    r = g.split('%s')
    x = T.hole(1, 'a *[`"&')
    y = doc(T, [a]) + x + doc(T, [b])
    s = y.join(r).join(p)
    both(T, s, law)


def both(T, s, law):
    if law is None:
        T.eq(html(T, s), T.ref.to_html(s), 'HTML differs from the reference')
    else:
        law(T, s)


def most(q, seq, step=4):
    """every one, or in the quick tier a part of them"""
    return seq[1::step] if q else seq


def blockcross(own):
    return [(f, o) for o in own for f in (beside, inside)]


def inlinecross(own):
    return [(within, o) for o in own]
