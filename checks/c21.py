"""Autolinks and raw HTML in text."""
from lib import *

BOUNDS = ('2 arbitrary characters (3 in schemes; thorough: one more) at every '
          'position of autolinks, addresses, tags, comments, declarations, '
          'instructions and CDATA, and up to 7 over the alphabets that '
          'matter; schemes of 1 to 34 characters, host labels of 62 to 65')
BOUNDS += OF_INLINES % '12' + \
    OF_MANY
OUTSIDE = 'longer arbitrary texts'
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIG = '0123456789'
LOCAL = LET + DIG + '.!#$%&\'*+/=?^_`{|}~-'
WS = ' \t\n\x0b\x0c\r'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def kind(T, s):
    """what the text becomes: a link with it as text, raw HTML of it, or
    neither"""
    ast = parse(T, 'q' + s)
    a = ast.first_child.first_child.nxt
    if a is not None and a.nxt is None:
        if a.t == 'link' and s[0] == '<':
            return 'link', a
        if a.t == 'html_inline' and a.literal == s:
            return 'html', a
    return 'none', a


def scheme(T, *ps):
    """a scheme has 2 to 32 letters, digits, plus, dot, hyphen"""
    s = doc(T, ps)
    T.assume('\0' not in s and '\r' not in s and '\n' not in s)
    ok = 2 <= len(s) and len(s) <= 32 and s[0] in LET
    for c in s:
        if c not in LET + DIG + '+.-':
            ok = False
    T.assume(':' not in s and '>' not in s and '<' not in s)
    k, a = kind(T, '<' + s + ':x>')
    if ok:
        T.eq(k, 'link', 'a scheme')
        T.eq(a.destination, s + ':x', 'destination')
        T.eq(html(T, 'q<' + s + ':x>'), '<p>q<a href="' + s + ':x">' + s +
             ':x</a></p>\n', 'autolink')
    else:
        T.require(k != 'link', 'not a scheme', s)


def path(T, *ps):
    """anything but space, < and > may follow"""
    s = doc(T, ps)
    T.assume('\0' not in s and '\r' not in s and '\n' not in s)
    ok = True
    for c in s:
        if ord(c) <= 32 or c == '<' or c == '>':
            ok = False
    k, a = kind(T, '<ab:' + s + '>')
    if ok:
        T.eq(k, 'link', 'autolink')
        T.eq(a.destination, T.ref.url('ab:' + s), 'destination')
        T.eq(html(T, 'q<ab:' + s + '>z'), '<p>q<a href="' +
             esc(T.ref.url('ab:' + s)) + '">ab:' + esc(s) + '</a>z</p>\n',
             'the text as it is')
    else:
        T.require(k == 'none' or a.first_child.literal != 'ab:' + s,
                  'no autolink', s)


def label_ok(s):
    if len(s) < 1 or len(s) > 63:
        return False
    for c in s:
        if c not in LET + DIG + '-':
            return False
    return s[0] != '-' and s[-1] != '-'


def mail(T, *ps):
    """the host is labels of 1 to 63 letters, digits and inner hyphens"""
    s = doc(T, ps)
    T.assume('\0' not in s and '\r' not in s and '\n' not in s)
    T.assume('<' not in s and '>' not in s)
    ok = True
    for x in s.split('.'):
        if not label_ok(x):
            ok = False
    k, a = kind(T, '<u@' + s + '>')
    if ok:
        T.eq(k, 'link', 'an address')
        T.eq(html(T, 'q<u@' + s + '>'), '<p>q<a href="mailto:u@' + s +
             '">u@' + s + '</a></p>\n', 'address')
    else:
        T.eq(k, 'none', 'not an address')


def local(T, k):
    s = T.hole(k, cs_not('\0\r\n<>@:'))
    ok = True
    for c in s:
        if c not in LOCAL:
            ok = False
    kd, a = kind(T, '<' + s + '@b.c>')
    if ok:
        T.eq(kd, 'link', 'an address')
        T.eq(a.destination, 'mailto:' + T.ref.url(s) + '@b.c', 'destination')
        T.eq(a.first_child.literal, s + '@b.c', 'text')
    else:
        T.eq(kd, 'none', 'not an address')


def verb(T, a, b, *ps):
    """raw HTML comes out as it went in, markup in it has no meaning"""
    x = doc(T, ps)
    T.assume('\0' not in x and '\r' not in x and '\n' not in x)
    s = a + x + b
    T.assume(raw_ok(a, x))
    T.eq(html(T, 'z' + s + 'z'), '<p>z' + s + 'z</p>\n', 'verbatim')
    T.eq(html(T, 'z *' + s + 'z*'), '<p>z <em>' + s + 'z</em></p>\n',
         'verbatim')
    T.eq(html(T, '# z' + s + 'z'), '<h1>z' + s + 'z</h1>\n', 'verbatim')
    T.eq(html(T, 'z' + s + 'z', {'smart': True}), '<p>z' + s + 'z</p>\n',
         'verbatim')


def raw_ok(a, x):
    """may x be in the construct that begins with a"""
    if a == '<b c="':
        return '"' not in x
    if a == "<b c='":
        return "'" not in x
    if a == '<!--q':
        return '--' not in x and x[-1:] != '-'
    if a == '<?':
        return '?>' not in x
    if a == '<!A ':
        return '>' not in x
    if a == '<![CDATA[':
        return ']]>' not in x
    return True


def name(T, k):
    """tag names: a letter, then letters, digits and hyphens"""
    s = T.hole(k, cs_not('\0\r\n<>:@ \t\x0b\x0c/=`"\'!?'))
    ok = s[0] in LET
    for c in s:
        if c not in LET + DIG + '-':
            ok = False
    for a, b in (('<', '>'), ('</', '>'), ('<', '/>'), ('<', ' />'),
                 ('</', ' >'), ('<', ' a>')):
        kd, n = kind(T, a + s + b)
        T.eq(kd, 'html' if ok else 'none', 'tag name')


def attr(T, k):
    """attribute names"""
    s = T.hole(k, cs_not('\0\r\n<> \t\x0b\x0c/=`"\''))
    ok = s[0] in LET + '_:'
    for c in s:
        if c not in LET + DIG + '_.:-':
            ok = False
    for a, b in (('<b ', '>'), ('<b ', '="">'), ('<b ', " = '' />"),
                 ('<b c ', '>'), ('<b ', '=d>')):
        kd, n = kind(T, a + s + b)
        T.eq(kd, 'html' if ok else 'none', 'attribute name')


def value(T, k):
    """unquoted values"""
    s = T.hole(k, cs_not('\0\r\n'))
    for c in s:
        T.assume(c not in '>/ \t\x0b\x0c')
    ok = True
    for c in s:
        if c in '"\'=<>`':
            ok = False
    T.assume(s[0] != '"' and s[0] != "'")
    kd, n = kind(T, '<b c=' + s + '>')
    T.eq(kd, 'html' if ok else 'none', 'unquoted value')


FIX = ['<a>', '</a>', '<a/>', '<a b>', '<a b="c">', "<a b='c'>", '<a b=c>',
       '<!--a-->', '<?a?>', '<!A b>', '<![CDATA[a]]>', '<http://a>',
       '<a@b.c>', '<a b="c" d>', '<ab:c>', '<a-b c:d=e />']


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q) + \
        drops(q, None, 2, (5, 7))


def own(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    out = [(scheme, k) for k in range(1, 4 + d)]
    for n in (1, 2, 29, 30, 31, 32, 33):
        out += [(scheme, 1, 'a' * n), (scheme, 'b' * n, 1),
                (scheme, 'a', 1, 'c' * n)]
    out += [(path, 1), (path, 2), (path, (4 + d, '\\&*`_')),
            (path, 'a', 2, 'b'), (path, 0)]
    out += [(mail, k) for k in range(1, 4 + d)]
    for n in (60, 61, 62, 63, 64):
        out += [(mail, 'a' * n, 1), (mail, 1, 'a' * n), (mail, 'x.', 'a' * n,
                                                         1, 'b.c')]
    out += [(mail, (5 + d, 'a-.')), (mail, 'a', 2, 'b'), (mail, 'a.b', 2)]
    out += [(local, 1), (local, 2)]
    for a, b in (('<b c="', '">'), ("<b c='", "'>"), ('<!--q', '-->'),
                 ('<?', '?>'), ('<!A ', '>'), ('<![CDATA[', ']]>')):
        out += [(verb, a, b, 1), (verb, a, b, 2),
                (verb, a, b, (4 + d, '*`_&\\')), (verb, a, b, '](u)', 1)]
    out += [(name, 1), (name, 2), (name, 3 if not q else 2), (attr, 1),
            (attr, 2), (value, 1), (value, 2)]
    for f in FIX:
        for i in range(1, len(f)):
            out.append((diff, 'q' + f[:i], 1, f[i:]))
            out.append((diff, 'q' + f[:i], 1, f[i + 1:], 1))
    out += [
        (diff, 'q<', 3, '>'), (diff, 'q<a', 3, '>'), (diff, 'q<a ', 2, '>'),
        (diff, 'q</', 2, '>'), (diff, 'q<!', 3, '>'), (diff, 'q<?', 2, '?>'),
        (diff, 'q<!--', 2, '-->'), (diff, 'q<!--', (7, '->a')),
        (diff, 'q<!--', (6 + d, '-> \n<')), (diff, 'q<!-', (4, '-a>'), '-->'),
        (diff, 'q<?', (6, '?> \n')), (diff, 'q<![CDATA[', (6, ']>[\n')),
        (diff, 'q<!', (5, 'Aa >\n')), (diff, 'q<a ', (6, 'b="> \n')),
        (diff, "q<a b", (6, "='>/\n")), (diff, 'q<a', (6, ' /=b>')),
        (diff, 'q<a b=', (5, '"\'`c> ')), (diff, 'q</a', (5, ' />b\n')),
        (diff, 'q<', (7 if not q else 6, 'a:@.>-')), (diff, 'q<a@', (6, 'a.-@>')),
        (diff, 'q<ab:', (5, 'a<> \n\\')), (diff, 'q<![', (3, 'CDA'), 'A[a]]>'),
        (diff, 'q<![', (5, 'CDATAcd[')), (diff, 'q<a\n', (4, ' b=\n>'), '>'),
        (diff, '*q<a b="*', 1, '">*'), (diff, '`q<a b="`', 1, '">`'),
        (diff, '[q<a b="](u)', 1, '">](v)'), (diff, 'q\\<a', 1, 'b>'),
        (diff, 'q<a>', 1, '<b>', 1, '</a>'), (diff, '> q<a\n', (2, '> b'), '>'),
        (diff, 'q<a\n\n', (2, 'b>'), '>'), (diff, 'q<!---', 2, '>'),
        (diff, 'q<!-->', 2), (diff, 'q<!--->', 2), (diff, 'q<!----', 1, '>'),
        (diff, 'q<a b=c', (3, ' /d=>'), 'e>'), (diff, '![<ab:', 1, '>](u)'),
        (diff, '[<ab:', 1, '>](u)'), (diff, 'q<a ', (2, 'b\x0b\x0c\xa0'), '>'),
        (diff, 'q<ab:', (2, '\x7f\x80\xa0\u2028\x1f'), '>'),
        (diff, 'q<\u0130', 1, ':x>'), (diff, 'q<A', (1, '\u212a\u017fk'), 'b>'),
        (diff, 'q<a ', 1, '="\u2028\n">'), (diff, 'q<ab:c', 1, '@d.e>'),
        (diff, 'q<a', (2, '@:.'), 'b', (2, '@:.'), 'c>'),
        (diff, 'q<a="', 1, '">'), (diff, 'q<a b ="', 1, '"', 1, 'c>'),
    ]
    out += inlinecross(
        ['<http://a>', '<a@b.c>', '<b c="d">', '</b>', '<!-- a -->', '<?a?>',
         '<!A b>', '<![CDATA[a]]>', '<a', '<>', '< a>', "<b c='>'>"]) + [
        (pairs, '<http://a', '>'), (pairs, '<b c="', '">'),
        (diff, 'q<a', Times(' b="c"', *BIG), ['>', ' >', '/>', '"', ' d=>']),
        (diff, 'q<', Times('a', *BIG), ['>', ':b>', '@b.c>', '-1>', '_>']),
        (diff, 'q<!--', Times('a-', *BIG), ['->', '-->', '>', ' -->']),
        (diff, 'q<', Times('a.', *BIG), 'b@c', Times('.d', 0, *BIG), '>'),
        (diff, 'q<ab:', Times('c', *BIG), ['>', ' >', '<']),
        (diff, 'q<a@', Times('b', *BIG), ['.', '-', ''], Times('c', *BIG), '>'),
        (diff, 'q<a', Times(' ', *BIG), ['b', ''], Times('\n', 0, 1, 2), '>')]
    return out
