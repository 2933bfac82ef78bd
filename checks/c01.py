"""Totality: every text parses and renders, in every output format."""
import json

from lib import *

BOUNDS = ('every text of at most 3 characters (thorough: 4), any Unicode '
          'scalar values; 1 to 3 arbitrary characters, or more over the '
          'markup alphabet, inside about 60 block and inline contexts; 900 '
          'to 3000 nested or adjacent constructs; all renderers, dumps and '
          'parser options')
BOUNDS += OF_MANY
OUTSIDE = ('texts that need more arbitrary characters at once; lone '
           'surrogates; memory exhaustion; time limits other than the 20 s '
           'per path')

MARKUP = '*_`[]()<>!&\\#-+=~|:"\'\n \t1.a;/'


def modes(T, s, k=0):
    """everything there is to do with a text, all of it ends with a str"""
    T.docs.append(s)
    pkg = T.pkg
    p = pkg.Parser({'smart': True} if k == 1 else {})
    ast = p.parse(s)
    if k == 0:
        out = pkg.HtmlRenderer().render(ast)
    elif k == 1:
        out = pkg.HtmlRenderer({'safe': True, 'sourcepos': True,
                                'softbreak': '<br />'}).render(ast)
    elif k == 2:
        out = pkg.ReStructuredTextRenderer().render(ast)
    else:
        T.require(json.loads(pkg.dumpJSON(ast)), 'JSON')
        T.require(pkg.dumpAST(ast) is None, 'AST dump')
        out = ''
        if k == 4:
            ast = p.parse(s)
            out = pkg.commonmark(s) + pkg.commonmark(s, 'rst')
            T.require(json.loads(pkg.commonmark(s, format='json')), 'JSON')
            T.require(pkg.commonmark(s, 'ast') is None, 'AST dump')
    T.require(isinstance(out, str), 'output is a text')
    T.observe(out)


def total(T, *parts):
    s = doc(T, parts)
    modes(T, s, T.choose(4))


def total1(T, k, *parts):
    s = doc(T, parts)
    modes(T, s, k)


DEEP = {
    'quote': ('>', 'a'), 'quotes': ('> ', 'a'), 'bullets': ('- ', 'a'),
    'ordered': ('1. ', 'a'), 'mixed': ('> - ', 'a'),
    'brackets': ('[', 'a'), 'images': ('![', 'a'), 'stars': ('*a ', 'b'),
    'strong': ('**a ', 'b'), 'under': ('_a ', 'b'),
    'ticks': ('`', ' a'), 'lt': ('<', 'a'), 'amp': ('&', 'a'),
    'slash': ('\\', 'a'), 'bang': ('!', 'a'), 'hash': ('#', ' a'),
    'nl': ('\n', 'a'), 'sp': (' ', 'a'), 'tab': ('\t', 'a'),
    'close': (']', 'a'), 'paren': ('[a](', 'b'), 'lines': ('a\n', 'b'),
    'paras': ('a\n\n', 'b'), 'items': ('- a\n', 'b'),
    'fences': ('```\n', 'b'), 'html': ('<a>', 'b'), 'q': ('"', 'a'),
    'defs': ('[a]: b\n', '\n[a]'), 'wild': ('*a_b', 'c'),
    'links': ('[a](b)', 'c'), 'eq': ('=', 'c'), 'dash': ('-', 'c'),
}
SHUT = {
    'brackets': '](u)', 'images': '](u)', 'stars': '*', 'strong': '**',
    'under': '_', 'lt': '>', 'paren': ')', 'ticks': '`',
}


def deep(T, what, n):
    """Neither nesting nor length exhausts the stack."""
    a, b = DEEP[what]
    s = a * n + T.hole(1, 'x*[\n') + b
    if what in SHUT:
        s = s + SHUT[what] * n
    k = T.choose(4)
    T.stack(900, modes, T, s, k)


CTX = ['- ', '> ', '1. ', '# ', '    ', '```\n', '~~~ ', 'a\n', '- a\n',
       '- a\n\n  ', '> a\n', '<div>', '<!--', '<?', '[a]: ', '[a', '[a](',
       '[a](b "', '![a', '`', '``', '*', '**a', '_', '<a ', '<a b=', '<http:',
       '<!A', '&#', '&', '\\', '[a]: b\n', '[a]: b "c', 'a\n=', 'a\n-',
       '- - ', '> - ', '- > ', '-\n', '1.\n', 'a  \n', '\t', ' \t', '-\t',
       '>\t', '"', "'", '...', '--', '[a][', '[a]\n\n[', '***', '<![CDATA[',
       '</', '<pre>', '- ```\n', '> ```\n', '-     a\n', '* * *\n', '>\n']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, modes) + \
        odds(q, modes) + \
        drops(q, modes, 9)


def own(tier):
    q = tier == 'quick'
    out = []
    for k in range(0, 3):
        out.append((total, k))
    for k in range(4):
        out.append((total1, k, 3))
    for c in CTX:
        out.append((total, c, 2))
        if not q:
            for k in range(4):
                out.append((total1, k, c, 3))
    if not q:
        for k in range(5):
            out.append((total1, k, 4))
            out.append((total1, k, (6, MARKUP)))
    else:
        for k in range(4):
            out.append((total1, k, (4, '*_[](!<`\\\n> -')))
        out.append((total1, 4, 2))
    for w in sorted(DEEP):
        n = 1050 if w not in ('mixed', 'bullets', 'ordered') else 400
        out.append((deep, w, n if q else n * 2))
    return out
