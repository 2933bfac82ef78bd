"""HTML blocks."""
from lib import *

BOUNDS = ('every name of the seven kinds of HTML blocks in every mixture of '
          'upper and lower case, followed by 1 or 2 arbitrary characters; '
          'about 60 starts, ends and interruptions with 1 to 3 arbitrary '
          'characters; tags of up to 6 characters over their own alphabet; '
          'lists and quotes around them')
BOUNDS += OF_BLOCKS % '8' + \
    OF_MANY
OUTSIDE = ('longer arbitrary contents')

TAGS = '''address article aside base basefont blockquote body
caption center col colgroup dd details dialog dir div dl dt fieldset
figcaption figure footer form frame frameset h1 h2 h3 h4 h5 h6 head header hr
html iframe legend li link main menu menuitem nav noframes ol optgroup option
p param section source summary table tbody td tfoot th thead title
tr track ul'''.split()


def anycase(T, w):
    """w with every letter in either case"""
    out = ''
    for c in w:
        out = out + (T.hole(1, c.lower() + c.upper()) if c.isalpha() else c)
    return out


def verbatim(T, start, parts, end):
    """From the start condition to the line with the end condition, the
    output is the input."""
    s = doc(T, parts)
    T.assume('\r' not in s and '\0' not in s)
    T.assume(end not in start + s)
    ci = end[:2] == '</'
    st = anycase(T, start) if ci else start
    ind = T.pick('', '   ')
    text = ind + st + s + 'x' + (anycase(T, end) if ci else end) + ' *y*\n'
    T.eq(html(T, text + 'z\n'), text + '<p>z</p>\n', 'HTML block verbatim')
    T.eq(html(T, 'a\n' + text), '<p>a</p>\n' + text,
         'HTML block after a paragraph line')
    T.eq(html(T, ind + st + s + 'x'), ind + st + s + 'x\n',
         'unclosed HTML block')


def six(T, n):
    """Block-level tags: up to a blank line, verbatim."""
    tag = T.pick(*TAGS)
    close = T.pick('<', '</')
    tail = T.pick(' ', '>', '/>', '\t', '\n', '')
    s = T.hole(n, cs_not('\n\r\0'))
    t = close + anycase(T, tag) + tail
    if tail != '':
        t = t + 'x' + s
    T.assume(len(s) == 0 or tail != '')
    want = t + 'y\n' if tail != '' else t + '\n'
    if tail != '':
        t = t + 'y'
    T.eq(html(T, t + '\n\n*z*\n'), want + '<p><em>z</em></p>\n',
         'HTML block of kind 6')
    T.eq(html(T, 'a\n' + t + '\n'), '<p>a</p>\n' + want,
         'HTML block of kind 6 after a paragraph line')


def six0(T):
    """the shapes around the name of a block tag"""
    tag = T.pick(*TAGS)
    s = T.pick('<', '</', '< ', '<//') + tag + T.hole(1) + 'a\n'
    s = T.pick('', 'p\n') + s
    T.eq(html(T, s), T.ref.to_html(s), 'HTML block of kind 6')


def jobs(tier):
    q = tier == 'quick'
    return own(tier) + longs(q) + \
        odds(q, None, 2) + \
        drops(q, None, 1, (5, 6, 7))


def own(tier):
    q = tier == 'quick'
    n = 2 if q else 3
    return [
        (verbatim, '<script>', [(0, n, None)], '</script>'),
        (verbatim, '<style x>', [(1, None)], '</pre>'),
        (verbatim, '<pre\n', [(1, None)], '</style>'),
        (verbatim, '<!--', [(0, n, None)], '-->'),
        (verbatim, '<?', [(0, n, None)], '?>'),
        (verbatim, '<!D', [(0, n, cs_not('>\n\r\0'))], '>'),
        (verbatim, '<![CDATA[', [(0, n, None)], ']]>'),
        (verbatim, '<!--', [(4, '->\n!')], '-->'),
        (six, 1), (six0,),
        (diff, '<', 3, '>\n*b*'), (diff, '<div', 2, '\n', 1, 'a\n'),
        (diff, 2, '<div>\n', 1, '\n*a*'), (diff, '</', 3, '\n*a*'),
        (diff, '<!', 3, '\n*a*'), (diff, '<?', 2, '\n*a*'),
        (diff, '<![CDATA', 1, 'a', 1, '\n*a*'),
        (diff, '<script', 1, '\n*a*\n\n</', 1, 'script', 1),
        (diff, '<pre', 1, 'a\n\n*b*\n</pre', 1, '*c*\n*d*'),
        (diff, '<a', 2, '\n*b*'), (diff, '<a ', 2, '="', 1, '">\n*b*'),
        (diff, '<a>', 1, '\n*b*\n\nc'), (diff, '</a', 2, '\n*b*'),
        (diff, Rep(' ', 0, 4), ['<div>', '<script>', '<!-- a', '<?a', '<!A',
                               '<![CDATA[', '<a>', '</a>'], ['', ' ', 'b'],
         '\n*c*\n', ['', ' ', '\t'], '\n*d*'),
        (diff, ['a\n', '> a\n', '- a\n', '# a\n', '    a\n', '<!-- -->\n',
                '[a]: /u\n'],
         Rep(' ', 0, 3), ['<div>', '<script>', '<!-- a', '<?a', '<!A',
                          '<![CDATA[', '<a>', '</a>', '</div>', '<x-y z>',
                          '<http://a>', '<!a', '<a@b.c>', '<DIV'],
         '\n*c*\n', (2, '\n *'), 'd'),
        # end conditions: first line that has one, same line, several
        (diff, '<!--', (5, '->\n '), '\n*a*'),
        (diff, '<?', (4, '?>\n'), '\n*a*'),
        (diff, '<!X', (3, '>\na'), '\n*a*'),
        (diff, '<![CDATA[', (5, ']>\n'), '\n*a*'),
        (diff, '<script>', ['', '\n', '\n\n', 'a\n'],
         ['</script>', '</style>', '</pre>', '</SCRIPT>', '</script >',
          '< /script>', '</scriptx>', '-->', '?>'], (2, '\n a'), '*b*'),
        (diff, ['<script>', '<style>', '<pre>', '<textarea>', '</script>',
                '<scripty>', '<script/>', '<pre/>', '</pre>', '<script\t',
                '<style'], (2, '\n >'), '*b*\n\n*c*'),
        (diff, '<div>', (5, '\n *'), 'a'),
        (diff, '<div>\n', (6, '\n \t*'), 'a'),
        (diff, '<del>', (3, '\n *'), '*a*'),
        (diff, '<div\n', (4, '> \n*'), 'a'),
        # containers end HTML blocks
        (diff, '> <div>\n', (5, '> \na'), '*b*'),
        (diff, '- <!--\n', (5, '- \na'), '-->\n*b*'),
        (diff, '> <script>\n', (4, '> \n'), '</script>\n*b*'),
        (diff, '1. <?\n', (5, ' \na'), '?>\n*b*'),
        (diff, '- <div>\n', (4, ' \n-'), '*b*\n', (3, ' \n'), 'c'),
        # kind 7: complete tags alone on the line
        (diff, '<a', (4, ' a="\''), '>', (1, ' \ta'), '\n*b*'),
        (diff, '<', ['a', 'x-1', 'A1', '1', '_', 'a:b'], (3, ' /=a'), '>\n*b*'),
        (diff, '</', ['a', 'x-1', 'A1', '1'], (3, ' \t/a'), '>\n*b*'),
        (diff, ['<a b="', "<a b='", '<a b='], (4, ' >"\'`a'), '>\n*b*'),
        (diff, ['<script', '<style', '<pre'], ['x', '-a', '1'], (1, ' >/'),
         '>\n*b*\n\n*c*'),
        (diff, '<i>\n', (4, ' \n<i>'), '*b*'),
        (diff, 'a\n', (1, ' \n'), '<i', (2, ' />'), '>\n', (1, ' \n'), '*b*'),
        (diff, '<div>\n' + '*a*\n' * 50, (2, ' \n*'), '*b*'),
        (diff, '<!--\n\n' + '*a*\n\n' * 30, (3, '->\n'), '\n*b*'),
    ] + blockcross(
        ['<div>\n*a*\n\n', '<!-- a\n\n-->\n', '<i>\n', '<pre>a</pre>\n',
         '<?a\n\n?>', '<![CDATA[\n\n]]>\n', '</ins >\n', '<!A>\n']) + [
        # what is nearly an end
        (diff, '<!--a\n', ['--', '-', ''], 1, ['->', '>', '-->'], '\n*b*\n-->\n*c*'),
        (diff, '<?a\n', ['?', ''], 1, ['?>', '>'], '\n*b*\n?>\n*c*'),
        (diff, '<![CDATA[a\n', [']]', ']', ''], 1, [']]>', ']>', '>'],
         '\n*b*\n]]>\n*c*'),
        (diff, '<!A\n', 1, 'b', 1, '\n*b*\n>\n*c*'),
        (diff, ['<pre>', '<script>', '<style>'], '\n<',
         ['/pre', '/script', '/style', '/', '/pr', '/scrip'], 1, ['>', 'e>', 't>'],
         '\n*b*\n</pre>\n*c*'),
        (diff, ['<pre>', '<script>', '<style>'], '\n', 1,
         ['/pre>', '/script>', '</style>', '</SCRIPT>'], '\n*b*\n</pre>\n*c*'),
        (diff, ['<div>', '<i>'], '\n', (2, ' \t\n\x0b\x0c\xa0>'), '\n*b*\n'),
        (diff, ['<!--', '<?', '<![CDATA[', '<script>', '<!A '],
         Times('a ', *BIG), ['-->', '?>', ']]>', '</script>', '>', ''], '\n*b*\n'),
        (diff, ['<!--', '<?', '<![CDATA[', '<script>', '<div>', '<i>'], '\n',
         Times('*a*\n', *BIG[:24]), ['-->', '?>', ']]>', '</script>', '', '\n'],
         '*b*\n'),
        (diff, '<a', Times(' b="c"', *BIG), ['>', ' >', '/>', ' d', '"'], '\n*b*'),
        (diff, ['a\n', ''], '<', Times('a', *BIG), ['>', ' b>', '->', '_>'], '\n*b*'),
        (diff, ['a\n', '- a\n', '> a\n', '# a\n'], Times(' ', *BIG[:12]),
         ['<div>', '<!--a', '<i>', '<pre>', '</p>'], '\n*b*')]
