"""URLs in the output are valid, and say what the text says."""
from lib import *

BOUNDS = ('destinations of 2 arbitrary characters (thorough: 3) in every '
          'construct that has one, and of up to 6 characters over % and hex '
          'digits')
BOUNDS += OF_BLOCKS % '5' + \
    OF_INLINES % '5' + \
    OF_MANY
OUTSIDE = 'longer arbitrary destinations'
OK = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
      '-_.~;/@:+?=&()%#*,')
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
FORMS = [('[a](<', '>)'), ('![a](<', '>)'), ('[a]: <', '>\n\n[a]'),
         ('[a](<', '> "t")'), ('> [a](<', '>)'), ('[a]: <', '>\n\n![b][a]'),
         ('# [a](<', '>)'), ('[*a*](<', '>)')]


def encode(s):
    """percent-encoding of everything not allowed in a URL"""
    out = ''
    for c in s:
        if c in OK:
            out = out + c
        else:
            for b in c.encode('utf-8'):
                out = out + '%{:02X}'.format(b)
    return out


def url_of(T, s):
    """the destination of the one link or image"""
    w = parse(T, s).walker()
    e = w.nxt()
    while e is not None:
        if e['node'].t in ('link', 'image'):
            return e['node'].destination
        e = w.nxt()
    T.fail('a link', s)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def hole(T, ps):
    s = doc(T, ps)
    T.assume('\n' not in s and '\r' not in s and '\0' not in s)
    e = ''
    for c in s:
        e = e + ('\\' + c if c in PUNCT else c)
    return s, e


def encoded(T, *ps):
    """whatever the characters, in whatever construct"""
    s, e = hole(T, ps)
    a, b = FORMS[T.choose(len(FORMS))]
    u = url_of(T, a + e + b)
    T.eq(u, encode(s), 'percent-encoded')
    out = html(T, a + e + b)
    T.require('"' + esc(encode(s)) + '"' in out, 'in the output', out)


def valid(T, *ps):
    """only characters of URLs, and the same once more"""
    s, e = hole(T, ps)
    u = url_of(T, '[a](<' + e + '>)')
    T.observe(u)
    for c in u:
        T.require(c in OK, 'a character of URLs', u)
    f = ''
    for c in u:
        f = f + ('\\' + c if c in PUNCT else c)
    T.same(url_of(T, '[a](<' + f + '>)'), u, 'encoded once')


def auto(T, *ps):
    """autolinks: the address encoded, the text as it is"""
    s = doc(T, ps)
    for c in s:
        T.assume(c > ' ' and c != '<' and c != '>' and c != '\x7f')
    out = html(T, '<http://a' + s + '>')
    T.eq(out, '<p><a href="' + esc(encode('http://a' + s)) + '">http://a' +
         esc(s) + '</a></p>\n', 'autolink')


def mail(T):
    """addresses: only the scheme is added"""
    s = T.hole(2, '.!#$%&\'*+/=?^_`{|}~-aZ0')
    out = html(T, 'q <' + s + '@b.c>')
    T.eq(out, '<p>q <a href="' + esc('mailto:' + encode(s)) + '@b.c">' +
         esc(s) + '@b.c</a></p>\n', 'address')


def percent(T, k):
    """percent signs of the text stay as they are"""
    s = T.hole(k, '%0aF2')
    u = url_of(T, '[a](/u' + s + 'x)')
    T.eq(u, '/u' + s + 'x', 'percent signs stay')
    T.eq(html(T, '<http:' + s + '>'), '<p><a href="http:' + s + '">http:' +
         s + '</a></p>\n', 'percent signs stay')


def ents(T):
    """references and escapes are decoded before"""
    c = T.hole(1, 'xy')
    for s, w in (('&auml;', '%C3%A4'), ('&#228;', '%C3%A4'), ('&amp;', '&'),
                 ('%C3%A4', '%C3%A4'), ('%c3%a4', '%c3%a4'), ('\\*', '*'),
                 ('&#x1F600;', '%F0%9F%98%80'), ('\u00e4', '%C3%A4'),
                 ('&quot;', '%22'), ('\\"', '%22'), ('\\\\', '%5C'),
                 ('\\a', '%5Ca'), ('&nosuch;', '&nosuch;'),
                 ('&#0;', '%EF%BF%BD'), ('&lt;', '%3C'), ('\\<', '%3C'),
                 ('&#32;', '%20'), ('&nbsp;', '%C2%A0'), ('[]', '%5B%5D'),
                 ('&percnt;41', '%41'), ('\u20ac', '%E2%82%AC'),
                 ('&fjlig;', 'fj'), ('&NotEqualTilde;', '%E2%89%82%CC%B8')):
        for a, b in (('[a](', ')'), ('[a](<', '>)'), ('![a](', ' "t")'),
                     ('[a]: ', '\n\n[a]'), ('[a]: <', '>\n\n[b][a]')):
            T.eq(url_of(T, a + '/' + s + c + b), '/' + w + c, 'decoded')


def plain(T, k):
    """bare destinations"""
    s = T.hole(k, cs_not(''.join(map(chr, range(33))) + '()<>\\&`\x7f'))
    T.eq(url_of(T, '[a](/' + s + ')'), encode('/' + s), 'bare destination')
    T.eq(url_of(T, '[a]: /' + s + '\n\n[a]'), encode('/' + s),
         'bare destination')


def long(T, *ps):
    """whatever the length"""
    s, e = hole(T, [Times('a', *BIG), 1] if not ps else ps)
    a, b = FORMS[T.choose(len(FORMS))]
    T.eq(url_of(T, a + e + b), encode(s), 'percent-encoded')


def somewhere(T, own):
    f = T.choose(3)
    (inside if f == 0 else within if f == 1 else beside)(T, own)


def jobs(tier):
    q = tier == 'quick'
    out = [(encoded, 1), (encoded, 2 if q else 3), (valid, 1), (valid, 2),
           (auto, 1), (auto, 2), (mail,), (ents,), (plain, 1), (plain, 2)]
    for k in range(1, 5 if q else 7):
        out.append((percent, k))
    for c in ['%', '%2', '%20', '%%', 'a', '\xe4', '\u20ac', '\U0001f600',
              '[', '"', '\\', '%zz', '%c3', '/', '&amp', '?', '#']:
        out += [(encoded, c, 1), (encoded, 1, c), (valid, c, 1),
                (auto, c, 1)]
    out += [(diff, '[a](%', 2, ')'), (diff, '[a](<', 2, '>)'),
            (diff, '![a](/', 2, ')'), (diff, '[a]: /', 2, '\n\n[a]'),
            (diff, '<http:', 2, '>'), (diff, '[a](/', (5, '%2&;#'), ')'),
            (diff, '[a](/&#', (3, '1x2;'), ';)')]
    ks = BIG[3::3] if q else BIG
    for c in ('a', '%', '%41', '\xe4', '[', '\\', '"', '&', '/', '\u20ac', ' ', '&amp;'):
        out += [(long, Times(c, *ks), 1), (long, 1, Times(c, *ks), 'b')]
    for o in ('[a](/%20\xe4[)', '<http://a/\xe4%20">', '[a](</b "&lt;>)',
              '![a](/\\*&auml;%)', '[x]: /[\xe4%zz"\n'):
        out.append((somewhere, o))
    return out
