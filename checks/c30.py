"""Options change what they name, and every way in gives the same."""
import builtins
import io
import sys

from lib import *

BOUNDS = ('every text of at most 2 characters (thorough: 3), 3 over the '
          'markup alphabet (thorough: 4), and 1 or 2 arbitrary characters in '
          'about 45 contexts, with every combination of the renderer\'s and '
          'the parser\'s options, any soft break of 2 characters; the '
          'convenience function with every format of 4 characters; the '
          'command line with its options, texts through stand-ins for '
          'the standard streams and for files')
BOUNDS += OF_BLOCKS % '2 (thorough: 48)' + \
    OF_INLINES % '1 (thorough: 4)' + \
    OF_MANY
OUTSIDE = ('encodings and newline translation of files; how argparse reads '
           'other command lines')

POS = ' data-sourcepos="'


def nopos(h):
    parts = h.split(POS)
    out = parts[0]
    for p in parts[1:]:
        out = out + p[p.index('"') + 1:]
    return out


def positions(h):
    return [p[:p.index('"')] for p in h.split(POS)[1:]]


def blocks(n):
    """the positions of the blocks that have an element of their own, in
    document order"""
    out = []
    for c in kids(n):
        tight = c.t == 'paragraph' and n.t == 'item' and \
            n.parent.list_data['tight']
        if c.t != 'html_block' and not tight:
            (a, b), (d, e) = c.sourcepos
            out.append('%d:%d-%d:%d' % (a, b, d, e))
        if c.t in ('block_quote', 'list', 'item'):
            out += blocks(c)
    return out


def combos(T, *ps):
    """safe, sourcepos and softbreak do not meet, and mean nothing to the
    parser"""
    options(T, doc(T, ps))


def near(T, own):
    beside(T, own, options)


def around(T, own):
    inside(T, own, options)


def inline(T, own):
    within(T, own, options)


def options(T, s):
    T.docs.append(s)
    pkg = T.pkg
    sm = T.choose(2)
    soft = T.pick('<br />\n', ' ', '_x_')
    po = {'smart': True} if sm else {}
    ast = pkg.Parser(po).parse(s)

    def r(**kw):
        return pkg.HtmlRenderer(kw).render(ast)
    plain = r()
    safe = r(safe=True)
    both = r(sourcepos=True, safe=True)
    at = r(sourcepos=True)
    T.eq(nopos(at), plain, 'sourcepos')
    T.eq(nopos(both), safe, 'sourcepos and safe')
    if POS not in plain:
        want = blocks(ast)
        T.same(positions(at), want, 'what has a position')
        T.same(positions(both), want, 'what has a position')
    T.eq(r(softbreak='\n'), plain, 'softbreak as by default')
    b = r(softbreak=soft)
    if sm:
        T.eq(b, T.ref.to_html(s, True, soft), 'softbreak')
    else:
        T.eq(b, T.ref.to_html(s, False, soft), 'softbreak')
    T.eq(nopos(r(softbreak=soft, sourcepos=True)), b,
         'softbreak and sourcepos')
    if '<' not in s and ':' not in s and '&' not in s:
        T.eq(safe, plain, 'safe with nothing to leave out')
        T.eq(r(softbreak=soft, safe=True), b, 'softbreak and safe')
    # off is as absent; other names mean nothing
    T.eq(r(safe=False, sourcepos=False, softbreak=None, smart=True),
         plain, 'options that are off')
    T.eq(r(safe=None, sourcepos=0, softbreak='', time=True), plain,
         'options that are off')
    po = dict(po, safe=True, sourcepos=True, softbreak='x', time=True)
    T.same(tree(pkg.Parser(po).parse(s)), tree(ast), 'the options of the '
           'renderer given to the parser')


def soft(T, *ps):
    """any text for a soft break, in place of every one of them and nowhere
    else"""
    s = doc(T, ps)
    x = T.hole(2)
    T.eq(html(T, s, {}, {'softbreak': x}), T.ref.to_html(s, False, x),
         'softbreak')


def entry(T, *ps):
    """the function, and the classes"""
    s = doc(T, ps)
    T.docs.append(s)
    pkg = T.pkg
    want = pkg.HtmlRenderer().render(pkg.Parser().parse(s))
    T.eq(pkg.commonmark(s), want, 'commonmark()')
    T.eq(pkg.commonmark(s, 'html'), want, "commonmark(, 'html')")
    T.eq(pkg.commonmark(s, format='html'), want, "format='html'")
    T.eq(pkg.HtmlRenderer({}).render(pkg.Parser({}).parse(s)), want,
         'no options')
    T.same(pkg.commonmark(s, 'rst'), pkg.ReStructuredTextRenderer().render(
        pkg.Parser().parse(s)), "commonmark(, 'rst')")
    import json
    T.same(json.loads(pkg.commonmark(s, 'json')),
           json.loads(pkg.dumpJSON(pkg.Parser().parse(s))),
           "commonmark(, 'json')")
    T.printed()
    pkg.dumpAST(pkg.Parser().parse(s))
    a = T.printed()
    pkg.commonmark(s, 'ast')
    T.same(T.printed(), a, "commonmark(, 'ast')")


def formats(T, n):
    """another format is an error"""
    f = T.hole(n)
    T.assume(f not in ('html', 'rst', 'json', 'ast'))
    try:
        T.pkg.commonmark('a', f)
    except ValueError:
        T.require(True, 'an error')
        return
    T.fail('another format')


class In(object):
    """what there is to read"""
    encoding = 'utf-8'
    name = 'in.md'

    def __init__(self, s):
        self.rest = s

    def __iter__(self):
        while True:
            x = self.readline()
            if len(x) == 0:
                return
            yield x

    def readline(self, n=-1):
        k = self.rest.find('\n') + 1
        if k == 0:
            k = len(self.rest)
        x = self.rest[:k]
        self.rest = self.rest[k:]
        return x

    def readlines(self):
        return [x for x in self]

    def read(self, n=-1):
        x = self.rest
        self.rest = ''
        return x

    def close(self):
        pass

    def isatty(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Out(object):
    encoding = 'utf-8'

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def text(self, before=''):
        out = [before] if len(before) else []
        out += self.parts
        if len(out) == 1:
            return out[0]
        return ''.join(out)

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def command(T, s, args):
    """(standard output, output file or None)"""
    old = (sys.argv, sys.stdin, sys.stdout, builtins.open, io.open)
    files = {}

    def opened(name, mode='r', *a, **k):
        if name == 'in.md':
            return In(s)
        if name == 'out.html':
            files[name] = Out()
            return files[name]
        return old[3](name, mode, *a, **k)
    T.printed()
    std = Out()
    sys.argv = ['cmark'] + args
    sys.stdin = In('' if 'in.md' in args else s)
    sys.stdout = std
    builtins.open = io.open = opened
    code = 0
    try:
        T.mods['commonmark.cmark'].main()
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv, sys.stdin, sys.stdout, builtins.open, io.open = old
    T.require(code in (None, 0), 'exits with 0')
    out = std.text(T.printed())
    return out, files['out.html'].text() if 'out.html' in files else None


def cli(T, *ps):
    s = doc(T, ps)
    T.docs.append(s)
    pkg = T.pkg
    how = T.choose(6)
    ast = pkg.Parser().parse(s)
    want = pkg.HtmlRenderer().render(ast)
    if how == 0:
        T.same(command(T, s, []), (want, None), 'standard input')
    elif how == 1:
        T.same(command(T, s, ['in.md']), (want, None), 'a file')
    elif how == 2:
        T.same(command(T, s, ['in.md', '-o', 'out.html']), ('', want),
               'a file to a file')
    elif how == 3:
        T.same(command(T, s, ['-o', 'out.html']), ('', want),
               'standard input to a file')
    elif how == 4:
        T.printed()
        pkg.dumpAST(ast)
        a = T.printed()
        T.same(command(T, s, ['-a']), (a, None), '-a')
    else:
        import json
        a, b = command(T, s, ['-aj', 'in.md'])
        T.same(json.loads(a), json.loads(pkg.dumpJSON(ast)), '-aj')
    T.observe(want)


CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', 'a\n', '- a\n', '[a]: b\n\n'
       '[a]', '[a](b "c")', '![a\nb](c)', '`a\nb`', '*a\nb*', '**a** ',
       '<a:b>', '&amp;', '\\', 'a\n===\n', 'a  \n', '*a **b* c', '***\n',
       '_a', '`', '"', "'", '--', '...', '<b>', '<div>\n', '[a](javascript:',
       '[a](<data:image/png', '![a](file:', '<vbscript:a>', 'a <b>c</b>\n',
       '- <p>\n\n  ', '> a\n', '3. a\n', '[a](b\n"c\nd")', 'a\\\n',
       '![a *b\nc* `d`](e)', '- a\n\n- b', 'a\n    b\n', '~~~ x"y\n',
       '<!-- a\nb -->\n', 'a <!-- b\nc -->']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, options) + \
        odds(q, options, 2) + \
        drops(q, options, 43)


def own(tier):
    q = tier == 'quick'
    m = '*_`[]()<>!\n-"a'
    out = [(combos, 1), (combos, 2), (combos, (3 if q else 4, '*[]<\n->a')),
           (soft, 2), (soft, (4 if q else 5, 'a\n*`[]')),
           (soft, '![', (3, 'a\n*`'), '](b)')]
    if not q:
        out += [(combos, 3), (entry, 3), (soft, 3)]
    for k in range(3):
        out.append((entry, k))
        out.append((cli, k))
    out += [(entry, (3, m)), (cli, (3, 'a\n*`-'))]
    for k in range(5):
        out.append((formats, k))
    for c in CTX:
        out += [(combos, c, 1), (soft, c, (2, 'a\n*')), (entry, c, 1),
                (cli, c, 1), (combos, c, (2, m)),
                (soft, c, 'a', 1, '\n', 1)]
        if not q:
            out += [(combos, c, 2), (combos, c, (3, m)), (entry, c, 2),
                    (cli, c, 2)]
    for p in most(q, PIECES, 24):
        out += [(near, p), (around, p)]
    for x in ('a\nb',) if q else ['"', '<b>', '](u)', 'a\nb']:
        out.append((inline, x))
    for p in ('a\n', '> ', '- ', '*a\n', '![a\n'):
        ks = Times(p, *(BIG[4::6] if q else BIG))
        out += [(combos, ks, 'b'), (entry, ks, 'b'), (cli, ks, 'b')]
    return out
