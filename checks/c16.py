"""Entities and numeric character references."""
from lib import *

BOUNDS = ('decimal references of 1 to 9 digits and hexadecimal ones of 1 to '
          '8, any digits; every name of 2 to 32 letters and digits, among '
          'them every HTML5 name, decided by position; about 100 places where '
          'references stand for contents but never for structure')
BOUNDS += OF_INLINES % '13' + OF_MANY
OUTSIDE = ('longer names')
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def dec(T, k):
    """&#d; for any digits d"""
    d = T.hole(k, '0123456789')
    got = html(T, 'x&#' + d + ';y\n')
    if k > 7:
        T.eq(got, '<p>x&amp;#' + d + ';y</p>\n', 'too many digits')
        return
    n = int(d)
    if n == 0 or n > 0x10ffff or (0xd800 <= n and n <= 0xdfff):
        want = '\ufffd'
    else:
        want = esc(chr(n))
    T.eq(got, '<p>x' + want + 'y</p>\n', 'decimal reference')


def hexa(T, k):
    d = T.hole(k, '0123456789abcdefABCDEF')
    x = T.pick('x', 'X')
    got = html(T, 'x&#' + x + d + ';y\n')
    if k > 6:
        T.eq(got, '<p>x&amp;#' + x + d + ';y</p>\n', 'too many digits')
        return
    n = int(d, 16)
    if n == 0 or n > 0x10ffff or (0xd800 <= n and n <= 0xdfff):
        want = '\ufffd'
    else:
        want = esc(chr(n))
    T.eq(got, '<p>x' + want + 'y</p>\n', 'hexadecimal reference')


def named(T, k, first):
    """&name; for any name of k characters: its expansion, else itself"""
    name = T.hole(1, first) + T.hole(k - 1, ALNUM)
    got = html(T, 'x&' + name + ';y\n')
    e = T.ref.html5
    key = name + ';'
    if key in e:
        T.eq(got, '<p>x' + esc(e[key]) + 'y</p>\n', 'named entity')
    else:
        T.eq(got, '<p>x&amp;' + name + ';y</p>\n', 'unknown name')


def every(T, lo, hi):
    """every name there is, in every place that takes entities"""
    names = sorted(k[:-1] for k in T.ref.html5 if k[-1] == ';')
    n = len(names)
    i = n * lo // hi
    j = n * (lo + 1) // hi
    name = names[i + T.choose(j - i)]
    v = T.ref.html5[name + ';']
    c = T.hole(1, 'ab')
    f = parse(T, '``` ' + c + '&' + name + ';\n').first_child
    T.eq(f.info, c + v, 'entity in info string')
    a = parse(T, '[a](</u&' + name + ';> "&' + name + ';' + c + '")'
              ).first_child.first_child
    T.eq([a.destination, a.title], [T.ref.url('/u' + v), v + c],
         'entity in link')
    T.eq(html(T, c + '&' + name + ';' + c), '<p>' + c + esc(v) + c +
         '</p>\n', 'entity in text')
    T.eq(html(T, c + '&' + name + c), '<p>' + c + '&amp;' + name + c +
         '</p>\n', 'no semicolon')
    T.eq(html(T, '`&' + name + ';`' + c), '<p><code>&amp;' + name +
         ';</code>' + c + '</p>\n', 'entity in code')


# what an entity stands for never has a structural meaning
STRUCT = ['&#42;a&#42;', '&ast;a&ast;', '&#95;a&#95;', '&lowbar;a&lowbar;',
          '&#96;a&#96;', '&grave;a&grave;', '&#91;a&#93;', '&lbrack;a](b)',
          '[a&#93;(b)', '[a]&#40;b)', '[a](b&#41;', '&#60;a>', '&lt;a&gt;',
          '<a&#62;', '&#35; a', '&num; a', '&#45; a', '&#62; a', '&gt; a',
          '1&#46; a', '1&period; a', '&#32;&#32;&#32;&#32;a', '&#9;a',
          '&Tab;a', 'a&#10;b', 'a&NewLine;b', 'a&#10;&#10;b', 'a&#13;b',
          '&#33;[a](b)', '&excl;[a](b)', 'a&#92;*b*', '&#92;&#92;a',
          '&#38;amp;', '&amp;amp;', '&#38;lt;', '&#96;&#96;&#96;\na',
          '&#42;&#42;&#42;', 'a\n&#61;&#61;', 'a\n&#45;&#45;-', 'a&#32;&#32;\nb',
          'a&nbsp;&nbsp;\nb', '[a]&#58; /u\n\n[a]', '[&#97;]: /u\n\n[a]',
          '[&amp;]: /u\n\n[&]', '[a](&#34;t&#34;)', '[a](/u &quot;t&quot;)',
          '[a](/u "&quot;")', '[a](</u&gt;>)', '[a](</u&#10;x>)',
          '<&#97;>', '<http&colon;//a>', '<http://a&amp;b>',
          '<a b="&quot;">', '&copy', '&copy ;', '&;', '&#;', '&#x;',
          '&#xg;', '&#12a;', '&#x110000;', '&#1114112;', '&#1114111;',
          '&#x10ffff;', '&#xD800;', '&#55296;', '&#57343;', '&#xe000;',
          '&#128;', '&#x80;', '&#159;', '&#0;', '&#x0;', '&#00000065;',
          '&#x0000041;', '&#0000065;', '&#x000041;', '&#65534;', '&#11;',
          '&AMP;', '&Amp;', '&amp', '&lt', '&nGt;', '&nvgt;', '&ThickSpace;',
          '&CounterClockwiseContourIntegral;', '&hellip;&mdash;',
          '**a&nbsp;**', '*&nbsp;a*', '_a&#33;_b', '*a&#42;*',
          '![&amp;](&quot;"&lt;")', '    &amp;', '```\n&amp;\n```',
          '<!-- &amp; -->', '``` &amp;x\n', '~~~ a&#32;b\n', '`&#96;`']


def struct(T):
    s = T.pick(*STRUCT)
    s = T.pick('', '> ', '- ', 'z ') + s + T.pick('', '\n\nq')
    T.eq(html(T, s), T.ref.to_html(s), 'entities are not markup')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + odds(q)


def own(tier):
    q = tier == 'quick'
    out = [(dec, k) for k in range(1, 10)] + [(hexa, k) for k in range(1, 9)]
    low = 'abcdefghijklmnopqrstuvwxyz'
    letters = [low, low.upper()]
    for k in range(2, 33):
        for f in letters:
            out.append((named, k, f))
    out += [(every, i, 8) for i in range(8)]
    out += [
        (struct,),
        (diff, '&', 3, ';'), (diff, '&', 2, ';', 1), (diff, '&#', 3, ';'),
        (diff, '&#x', 3, ';'), (diff, '&#3', 2, ';', 1),
        (diff, 1, '&am', 1, ';'), (diff, '&', 2, '#;'),
        (diff, '[a](b&', 1, 'mp', 1, ' "&', 1, 't;")'),
        (diff, '`&', 2, 'mp;`'), (diff, '<a&', 2, 'amp;>'),
        (diff, '<http://a&', 2, 'amp;>'), (diff, '&amp', 2, '&lt;'),
        (diff, '``` &', 1, 'mp', 1, '\na'),
        (diff, '[a]: /u&', 1, 'mp; "&', 1, 't;"\n\n[a]'),
        (diff, (6, '&#;1xa')), (diff, '&', (4, '&#;amp'), ';'),
        (diff, '&#', (9, '01'), ';'), (diff, '&#x', (8, '0f'), ';'),
        (diff, '&#', ['', 'x', 'X'], (4, 'dD3;x '), ';'),
        (sdiff, '&quot;a&quot; &#39;b&#39; &#45;&#45; ', (2, '"\' -'), 'c'),
    ]
    out += inlinecross(
        ['&amp;', '&#42;', '&#x26;', '&quot;', '&nbsp;', '&#0;', '&lt;a&gt;', '&a;',
         '&#10;', '&ngE;', '&amp', '&AMP;', '&Auml'])
    return out
