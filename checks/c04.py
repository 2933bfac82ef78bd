"""Safe mode lets neither raw HTML nor dangerous URLs through."""
from lib import *

BOUNDS = ('every spelling in upper and lower case of every dangerous scheme '
          'followed by 2 arbitrary characters, in every construct that '
          'makes a URL; the same spelled with references, escapes and '
          'percent signs; safe output against the ordinary output of the '
          'censored document around about 30 links and images; raw HTML of 2 arbitrary characters (thorough: 3) '
          'in about 40 contexts; every text of at most 3 characters '
          '(thorough: 4)')
BOUNDS += OF_INLINES % '12 (thorough: 48)' + OF_MANY
OUTSIDE = 'schemes other than javascript, vbscript, file and data'
BAD = ('javascript:', 'vbscript:', 'file:', 'data:')
OMIT = '<!-- raw HTML omitted -->'


def cases(T, word):
    """the word in any mixture of upper and lower case"""
    out = ''
    for c in word:
        out = out + (T.hole(1, c + c.upper()) if c.isalpha() else c)
    return out


def low(T, s):
    """the characters of a URL, for comparison"""
    return s.lower()


PLACES = [
    ('[a](', ')'), ('[a](<', '>)'), ('![a](', ')'), ('![a](<', '>)'),
    ('[a](', ' "t")'), ('<', '>'), ('[a]: ', '\n\n[a]'),
    ('[a]: <', '>\n\n![a]'), ('[a]: ', '\n\n[b][a]'),
    ('[a]:\n', ' "t"\n\n[a][]'), ('[![a](', ')](b)'), ('[![a](b)](', ')'),
    ('*[a](', ')*'), ('- [a](', ')'), ('> ![a](', ')'), ('# [a](', ')'),
    ('![[a](', ')](b)'), ('![a](', ' "t")'),
]
ASC = ''.join(chr(i) for i in range(32, 127) if chr(i) not in '<>\\&')
URLC = cs_not(''.join(map(chr, range(33))) + '<>()\\&"%[]')


def urls(T, s):
    """href and src of the output, and that there is nothing else"""
    out = html(T, s, None, {'safe': True})
    T.observe(out)
    got = []
    for a in ('href="', 'src="'):
        parts = out.split(a)
        for p in parts[1:]:
            got.append(p.split('"')[0])
    return out, got


def blocked(T, word, k):
    """scheme:anything is never emitted"""
    n = T.choose(len(PLACES))
    a, b = PLACES[n]
    u = cases(T, word) + T.hole(k, URLC)
    out, got = urls(T, a + u + b)
    for g in got:
        T.require(g == '' or g == 'b', 'dangerous URL', g)
    # the text of the link stays
    T.require(out.count('a') > 0, 'text stays')
    if '!' not in a + b:
        T.require('<a' in out, 'still a link')


def image_ok(T):
    """data: URLs of images are allowed"""
    kind = T.pick('png', 'gif', 'jpeg', 'webp')
    u = cases(T, 'data:image/' + kind) + T.hole(1, ';,a')
    a = T.pick('[a](', '![a](<', '[a]: ')
    b = {'[a](': ')', '![a](<': '>)', '[a]: ': '\n\n[a]'}[a]
    out, got = urls(T, a + u + b)
    T.eq(got, [u], 'images are allowed')


def image_bad(T):
    """... and of nothing else"""
    kind = T.pick('svg', 'svg+xml', 'jpg', 'pn', 'x', '', 'html')
    sep = T.pick('/', '', ' ', '\\', ';')
    u = 'data:image' + sep + kind + ',a'
    a = T.pick('[a](<', '![a](<')
    out, got = urls(T, a + u + '>)')
    for g in got:
        T.require(g == '', 'data URL that is no image', g)


SPELL = [
    'javascript&colon;a', '&#106;avascript:a', 'j&#97;vascript:a',
    '&#x6a;avascript:a', 'JAVASCRIPT&#58;a', 'javascript\\:a',
    'vbscript&colon;a', '&#118;bscript:a', 'file\\:a', 'dat&#97;:a',
    'data&colon;text/html,a', 'data:&#105;mage/svg,a',
    '&#102;ile:///a', 'vbscript\\:a', 'data\\:a',
    'data:text/html,data:image/png',
]


def spelled(T):
    u = T.pick(*SPELL) + T.hole(1, URLC)
    a, b = T.pick(*[p for p in PLACES if p[0] != '<'])
    out, got = urls(T, a + u + b)
    for g in got:
        T.require(g == '' or g == 'b', 'dangerous URL', g)


def rawhtml(T, *parts):
    """no raw HTML: only its placeholder, in the places it was in"""
    s = doc(T, parts)
    ast = parse(T, s)
    w = ast.walker()
    n = 0
    alt = 0
    e = w.nxt()
    while e is not None:
        x = e['node']
        if x.t == 'image':
            alt += 1 if e['entering'] else -1
        elif x.t == 'html_block' or (x.t == 'html_inline' and alt == 0):
            n += 1
            x.literal = OMIT
        e = w.nxt()
    # whatever was in them makes no difference
    got = html(T, s, None, {'safe': True})
    T.docs.pop()
    mark = T.pkg.HtmlRenderer().render(ast)
    if got.count('href=') == mark.count('href=') and \
       got.count('src=""') == mark.count('src=""'):
        T.eq(got, mark, 'raw HTML is left out')
    else:
        T.eq(got.count(OMIT), n, 'raw HTML is left out')


def censored(T, *parts):
    """safe mode is the ordinary output of the document without its raw HTML
    and its dangerous URLs"""
    censor(T, doc(T, parts))


def censor(T, s):
    ast = parse(T, s)
    got = T.pkg.HtmlRenderer({'safe': True}).render(ast)
    T.observe(got)
    w = ast.walker()
    alt = 0
    e = w.nxt()
    while e is not None:
        x = e['node']
        if x.t == 'html_block' or (x.t == 'html_inline' and alt == 0):
            x.literal = OMIT
        if x.t in ('link', 'image') and e['entering']:
            d = x.destination.lower()
            if d.startswith(BAD):
                if not d.startswith(('data:image/png', 'data:image/gif',
                                     'data:image/jpeg', 'data:image/webp')):
                    x.destination = 'REMOVED'
        if x.t == 'image':
            alt += 1 if e['entering'] else -1
        e = w.nxt()
    want = T.pkg.HtmlRenderer().render(ast)
    want = want.replace(' href="REMOVED"', '')
    want = want.replace('src="REMOVED"', 'src=""')
    T.eq(got, want, 'safe mode')


def same(T, *parts):
    """without either, safe mode changes nothing"""
    s = doc(T, parts)
    ast = parse(T, s)
    w = ast.walker()
    e = w.nxt()
    while e is not None:
        x = e['node']
        if x.t in ('html_block', 'html_inline'):
            return
        if x.t in ('link', 'image'):
            d = x.destination.lower()
            if d.startswith(BAD):
                return
        e = w.nxt()
    T.eq(T.pkg.HtmlRenderer({'safe': True}).render(ast),
         T.pkg.HtmlRenderer().render(ast), 'safe mode changes nothing else')


def both(T, *parts):
    """what safe mode changes, character by character of the URL"""
    u = doc(T, parts)
    s = '[a](<' + u + '>)'
    ast = parse(T, s)
    a = ast.first_child.first_child
    if a.t != 'link':
        return
    d = a.destination.lower()
    out = T.pkg.HtmlRenderer({'safe': True}).render(ast)
    T.observe(out)
    if d.startswith(('data:image/png', 'data:image/gif', 'data:image/jpeg',
                     'data:image/webp')):
        T.eq(out, T.pkg.HtmlRenderer().render(ast), 'data of an image')
    elif d.startswith(BAD):
        T.eq(out, '<p><a>a</a></p>\n', 'dangerous URL')
    else:
        T.eq(out, T.pkg.HtmlRenderer().render(ast), 'harmless URL')


CTX = ['<', '<a', '</', '<!', '<!--', '<?', '<![CDATA[', '<div', '<div>\n',
       '<script>', 'a <b', 'a </b', 'a <!--', 'a <?', 'a <!A', '- <',
       '> <', '# <', '*<a>', '[<a>](b)', '[<', '![<a>', '![<', '<pre>',
       '<b c="', '<b c=\'', '<table>\n<tr>', 'a\n<', '- a\n  <', '<a>*',
       '<h1>', '</h2>', '<style>\n', '<script>\n\n', '<a/>', '<b><c>',
       '[a](b "<c>")<', '<b\n', 'a\n<!--', '[x]: <']


def near(T, own):
    beside(T, own, censor)


def around(T, own):
    inside(T, own, censor)


def inline(T, own):
    within(T, own, censor)


DANGER = ['[a](data:b)', '![a](File:b "c")', '<vbscript:a>', '<b c>',
          '[![<i>](javascript:a)](b)', '![a](data:image/png,b)',
          '[a](b:data:c)', '[x]: file:a\n\n[x] ', '<!-- a -->']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q, censor, 2) + odds(q, censor, 2) + \
        drops(q, censor, 3, (5, 6, 7)) + \
        [(f, x) for x in DANGER for f in (near, around, inline)] + \
        [(inline, x) for x in most(q, INLINES)] + \
        [(near, x) for x in most(q, PIECES, 6)] + \
        [(further, i) for i in range(4)]


def further(T, i):
    """a dangerous scheme that is not at the begin is none"""
    u = T.hole(1, URLC) + T.pick('', 'a', '/', 'b:', '?x=', 'data:image/png,') \
        + cases(T, BAD[i]) + 'x'
    s = T.pick('[a](%s)', '![a](%s "t")', '<a:%s>', '[%s]: %s\n\n[%s]'
               ).replace('%s', u)
    censor(T, s)


def own(tier):
    q = tier == 'quick'
    out = []
    for w in ('javascript:', 'vbscript:', 'file:', 'data:'):
        out.append((blocked, w, 2 if q else 3))
    out += [(image_ok,), (image_bad,), (spelled,)]
    for c in CTX:
        out.append((rawhtml, c, 2 if q else 3, ['>', '>c']))
        out.append((rawhtml, c, (3, '<>a"-!/ =\n'), ['>', '-->']))
    for k in range(1, 4 if q else 5):
        out.append((rawhtml, k))
        out.append((same, k))
    for u in ('javascript:b', 'data:image/png,b', 'data:b', '/u'):
        for b in ('](' + u + ')', '](<' + u + '> "t")', '][x]\n\n[x]: ' + u,
                  '](' + u + ')](' + u + ')'):
            n = 2 if q else 3
            out += [(censored, '[', n, b), (censored, '![', n, b),
                    (censored, '[', (n + 1, '![]*`<a>'), b),
                    (censored, '![', (n + 1, '![]*`<a>'), b),
                    (censored, '[![', (n, '![]*`<a>'), b),
                    (censored, '![![', (n, '![]*`<a>'), b)]
        out += [(censored, '[a](' + u + ' "', n, '")'),
                (censored, '![](' + u + ' "', n, '")'),
                (censored, '<' + u, n, '>'), (censored, 1, '![](' + u, 1, ')', 1),
                (censored, '- [](' + u + ')', n), (censored, '# ', 1, '![](' + u + ')', 1)]
    for w in ('javascript', 'vbscript', 'file', 'data', 'http', 'data:image',
              'data:image/', 'xjavascript', 'script', 'mailto'):
        out.append((both, w, (3 if not q else 2, ASC)))
        out.append((both, w, (1, cs_not('<>\\&'))))
        if w[:5] != 'data:':
            out.append((both, (1, ASC), w, (1, ASC)))
        if w in ('vbscript', 'file', 'data', 'data:image', 'data:image/'):
            continue
        out.append((both, (1, cs_not('<>\\&')), w, ':'))
    for i in range(len('javascript:')):
        out.append((both, 'javascript:'[:i], (2, ASC), 'javascript:'[i + 1:], 'x'))
    for w in ('vbscript:', 'file:', 'data:'):
        for i in range(len(w)):
            out.append((both, w[:i], (2, ASC), w[i + 1:], 'x'))
    for k in ('png', 'gif', 'jpeg', 'webp'):
        for i in range(len(k) + 1):
            out.append((both, 'data:image/' + k[:i], (1, cs_not('<>\\&')), k[i + 1:], 'x'))
    out += [(both, 'data:image', (1, cs_not('<>\\&')), 'png'), (both, 'data', (1, cs_not('<>\\&')), 'image/png'),
            (both, 'data:', (1, cs_not('<>\\&')), 'image/png'), (both, 'javascript', (1, cs_not('<>\\&')), ':a'),
            (both, (10, 'javscriptJ'), ':') if not q else
            (both, (6, 'fFiIlLeE:a'), 'x'),
            (same, '[a](', (4 if not q else 3, ASC), ')'),
            (same, '![a](', (4 if not q else 3, ASC), ' "t")'),
            (same, '[a](', 1, ')'), (same, '![a](<', 1, '> "t")'),
            (same, '<http:', (2, ASC), '>'), (same, '<http:', 1, '>')]
    return out
