"""Reference semantics: CommonMark 0.29 to HTML, written from the spec text.

Used as the oracle of the differential properties.  It shares no code with
/repo: blocks are kept as (start, end) line ranges from which tightness is
derived, and the inline phase has no openers_bottom optimisation.
Whitespace = space, tab, newline, VT, FF, CR; blank = spaces and tabs only.
"""
from html.entities import html5

import refsets      # provided by the loader: character classes

WSP = ' \t\n\x0b\x0c\r'
DIGITS = '0123456789'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
ALNUM = LETTERS + DIGITS
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
BLOCK_TAGS = frozenset('''address article aside base basefont blockquote body
caption center col colgroup dd details dialog dir div dl dt fieldset
figcaption figure footer form frame frameset h1 h2 h3 h4 h5 h6 head header hr html iframe
legend li link main menu menuitem nav noframes ol optgroup option p param
section source title summary table tbody td tfoot th thead title tr track
ul'''.split())


def low(c):
    """ASCII lower case of one character"""
    if c in UPPER:
        return c.lower()
    return c


def isblank(s):
    for c in s:
        if c not in ' \t':
            return False
    return True


def strip(s, cs=WSP):
    i = 0
    j = len(s)
    while i < j and s[i] in cs:
        i += 1
    while j > i and s[j - 1] in cs:
        j -= 1
    return s[i:j]


# ---------------------------------------------------------------- lines
def split_lines(s):
    out = []
    i = 0
    n = len(s)
    st = 0
    while i < n:
        if s[i] == '\n':
            out.append(s[st:i])
            st = i + 1
        elif s[i] == '\r':
            out.append(s[st:i])
            if i + 1 < n and s[i + 1] == '\n':
                i += 1
            st = i + 1
        i += 1
    if st < n or n == 0:
        out.append(s[st:])
    return out


class Cur(object):
    """Cursor in a line: pos, virtual column, columns left of a split tab"""

    def __init__(self, s):
        self.s = s
        self.pos = 0
        self.col = 0
        self.rem = 0

    def indent(self):
        """(width of the whitespace ahead, position after it)"""
        p = self.pos
        col = self.col + self.rem
        w = self.rem
        s = self.s
        while p < len(s):
            if s[p] == ' ':
                w += 1
                col += 1
            elif s[p] == '\t':
                d = 4 - col % 4
                w += d
                col += d
            else:
                break
            p += 1
        return w, p

    def to_text(self):
        """skip all whitespace"""
        w, p = self.indent()
        self.col += w
        self.pos = p
        self.rem = 0

    def eat_cols(self, n):
        """consume up to n columns of whitespace"""
        while n > 0:
            if self.rem:
                d = min(n, self.rem)
                self.rem -= d
                self.col += d
                n -= d
            elif self.pos < len(self.s) and self.s[self.pos] == ' ':
                self.pos += 1
                self.col += 1
                n -= 1
            elif self.pos < len(self.s) and self.s[self.pos] == '\t':
                self.pos += 1
                self.rem = 4 - self.col % 4
            else:
                return

    def eat(self, n):
        """consume n non-tab characters"""
        self.pos += n
        self.col += n

    def rest(self):
        return ' ' * self.rem + self.s[self.pos:]

    def has_space(self):
        return self.rem > 0 or (self.pos < len(self.s) and
                                self.s[self.pos] in ' \t')


class Blk(object):
    def __init__(self, t, start, parent=None):
        self.t = t
        self.start = start
        self.end = start
        self.parent = parent
        self.kids = []
        self.open = True
        self.lines = []
        self.level = 0
        self.fence = None
        self.foff = 0
        self.info = ''
        self.html = 0
        self.off = 0
        self.key = None
        self.num = None
        self.text = None
        self.gone = False


def run_len(s, p, c):
    n = 0
    while p + n < len(s) and s[p + n] == c:
        n += 1
    return n


def atx(s, p):
    """(level, text) or None"""
    n = run_len(s, p, '#')
    if n < 1 or n > 6:
        return None
    q = p + n
    if q < len(s) and s[q] not in ' \t':
        return None
    body = strip(s[q:], ' \t')
    # optional closing sequence
    e = len(body)
    while e > 0 and body[e - 1] == '#':
        e -= 1
    if e < len(body) and (e == 0 or body[e - 1] in ' \t'):
        body = body[:e]
    return n, strip(body)


def fence_open(s, p):
    if p >= len(s):
        return None
    c = s[p]
    if c not in '`~':
        return None
    n = run_len(s, p, c)
    if n < 3:
        return None
    if c == '`':
        for x in s[p + n:]:
            if x == '`':
                return None
    return c, n


def fence_close(s, p, c, n):
    k = run_len(s, p, c)
    if k < n:
        return False
    for x in s[p + k:]:
        if x != ' ':
            return False
    return True


def thematic(s, p):
    if p >= len(s) or s[p] not in '*-_':
        return False
    c = s[p]
    n = 0
    for x in s[p:]:
        if x == c:
            n += 1
        elif x not in ' \t':
            return False
    return n >= 3


def setext(s, p):
    if p >= len(s) or s[p] not in '=-':
        return 0
    c = s[p]
    q = p + run_len(s, p, c)
    if not isblank(s[q:]):
        return 0
    return 1 if c == '=' else 2


def ci_at(s, p, word):
    if p + len(word) > len(s):
        return False
    for i in range(len(word)):
        if low(s[p + i]) != word[i]:
            return False
    return True


def html_start(s, p, in_para):
    """HTML block type starting at p (which holds '<'), or 0"""
    n = len(s)
    for w in ('script', 'pre', 'style'):
        if ci_at(s, p + 1, w):
            q = p + 1 + len(w)
            if q == n or s[q] in WSP or s[q] == '>':
                return 1
    if s[p:p + 4] == '<!--':
        return 2
    if s[p:p + 2] == '<?':
        return 3
    if s[p:p + 2] == '<!' and p + 2 < n and s[p + 2] in UPPER:
        return 4
    if s[p:p + 9] == '<![CDATA[':
        return 5
    q = p + 1
    if q < n and s[q] == '/':
        q += 1
    e = q
    name = ''
    while e < n and s[e] in ALNUM:
        e += 1
    if e > q and e - q <= 10:
        for w in BLOCK_TAGS:
            if len(w) == e - q and ci_at(s, q, w):
                if e == n or s[e] in WSP or s[e] == '>' or \
                   s[e:e + 2] == '/>':
                    return 6
                break
    if not in_para:
        m = open_tag(s, p) or close_tag(s, p)
        if m and strip(s[m:]) == '':
            return 7
    return 0


def contains_ci(s, word):
    for i in range(len(s) - len(word) + 1):
        if ci_at(s, i, word):
            return True
    return False


def html_end(s, t):
    if t == 1:
        return contains_ci(s, '</script>') or contains_ci(s, '</pre>') or \
            contains_ci(s, '</style>')
    return contains_ci(s, {2: '-->', 3: '?>', 4: '>', 5: ']]>'}[t])


def list_marker(s, p, in_para):
    """(key, number, width) or None"""
    n = len(s)
    if p >= n:
        return None
    if s[p] in '-+*':
        key = ('b', s[p])
        num = None
        w = 1
    else:
        q = p
        while q < n and q - p < 10 and s[q] in DIGITS:
            q += 1
        if q == p or q - p > 9 or q >= n or s[q] not in '.)':
            return None
        num = int(s[p:q])
        key = ('o', s[q])
        w = q - p + 1
    if p + w < n and s[p + w] not in ' \t':
        return None
    if in_para:
        if num is not None and num != 1:
            return None
        if isblank_ws(s[p + w:]):
            return None
    return key, num, w


class Blocks(object):
    def __init__(self, text):
        self.doc = Blk('doc', 0)
        self.tip = self.doc
        self.refs = {}
        self.blank = {}
        self.bq = {}        # line -> innermost quote whose marker it has
        self.lines = split_lines(text)
        for i in range(len(self.lines)):
            self.line(i, self.lines[i])
        while self.tip is not None:
            self.close(self.tip)

    # -- structure
    def add(self, t, i):
        ok = {'doc': 1, 'quote': 1, 'item': 1}
        while not (self.tip.t in ok and t != 'item' or
                   self.tip.t == 'list' and t == 'item'):
            self.close(self.tip)
        b = Blk(t, i, self.tip)
        self.tip.kids.append(b)
        self.tip = b
        return b

    def close(self, b):
        b.open = False
        self.tip = b.parent
        if b.t == 'para':
            if self.strip_refs(b) and isblank_ws(b.text):
                b.gone = True
                b.parent.kids.remove(b)

    def strip_refs(self, b):
        """take the leading link reference definitions off a paragraph"""
        if b.text is None:
            b.text = '\n'.join(b.lines)
        n = len(b.text)
        while len(b.text) and b.text[0] == '[':
            r = ref_def(b.text)
            if r is None:
                break
            label, dest, title, end = r
            if label not in self.refs:
                self.refs[label] = (dest, title)
            b.text = b.text[end:]
        return len(b.text) < n or n == 0

    def extend(self, b, i):
        while b is not None:
            b.end = i
            b = b.parent

    # -- one line
    def line(self, i, s):
        s = s.replace('\x00', '\ufffd')
        cur = Cur(s)
        con = self.doc
        quoted = None
        while con.kids and con.kids[-1].open:
            b = con.kids[-1]
            w, p = cur.indent()
            blank = p >= len(s)
            if b.t == 'quote':
                if w > 3 or blank or s[p] != '>':
                    break
                cur.to_text()
                cur.eat(1)
                if cur.has_space():
                    cur.eat_cols(1)
                quoted = b
            elif b.t == 'item':
                if blank and not b.kids and i == b.start + 1:
                    break
                elif w >= b.off:
                    cur.eat_cols(b.off)
                elif blank:
                    cur.to_text()
                else:
                    break
            elif b.t == 'fence':
                if w <= 3 and fence_close(s, p, b.fence[0], b.fence[1]):
                    self.extend(b, i)
                    self.blank[i] = False
                    while self.tip is not b:
                        self.close(self.tip)
                    self.close(b)
                    return
                cur.eat_cols(b.foff)
            elif b.t == 'icode':
                if w >= 4:
                    cur.eat_cols(4)
                elif blank:
                    cur.to_text()
                else:
                    break
            elif b.t == 'html':
                if blank and b.html >= 6:
                    break
            elif b.t == 'para':
                if blank:
                    break
            con = b
        matched = con
        leaf = con.t in ('fence', 'icode', 'html')
        old = self.tip
        closed = con is old

        def cut():
            # close what the line did not continue
            while self.tip is not matched:
                self.close(self.tip)

        while not leaf:
            w, p = cur.indent()
            if p >= len(s):
                break
            if w >= 4:
                if self.tip.t != 'para' or self.tip.t == 'para' and \
                   not self.tip.open:
                    cut()
                    b = self.add('icode', i)
                    cur.eat_cols(4)
                    con = b
                    leaf = True
                break
            c = s[p]
            if c == '>':
                cut()
                con = matched = self.add('quote', i)
                cur.to_text()
                cur.eat(1)
                if cur.has_space():
                    cur.eat_cols(1)
                quoted = con
                closed = True
                continue
            h = atx(s, p)
            if h:
                cut()
                b = self.add('head', i)
                b.level = h[0]
                b.text = h[1]
                self.done(b, i)
                return
            f = fence_open(s, p)
            if f:
                cut()
                b = self.add('fence', i)
                b.fence = f
                b.foff = w
                b.info = unescape(strip(s[p + f[1]:]))
                self.extend(b, i)
                self.blank[i] = False
                return
            if c == '<':
                lazy = not closed and self.tip.t == 'para'
                t = html_start(s, p, con.t == 'para' or lazy)
                if t:
                    cut()
                    b = self.add('html', i)
                    b.html = t
                    con = b
                    leaf = True
                    break
            if con.t == 'para':
                k = setext(s, p)
                if k:
                    self.strip_refs(con)
                    if len(con.text):
                        con.t = 'head'
                        con.level = k
                        con.text = strip(con.text)
                        self.done(con, i)
                        return
                    con.lines = []
                    con.text = None
            if thematic(s, p):
                cut()
                b = self.add('hr', i)
                self.done(b, i)
                return
            m = list_marker(s, p, con.t == 'para')
            if m:
                cut()
                if self.tip.t != 'list' or self.tip.key != m[0]:
                    b = self.add('list', i)
                    b.key = m[0]
                    b.num = m[1]
                con = matched = self.add('item', i)
                con.off = w + m[2]
                cur.to_text()
                cur.eat(m[2])
                w2, p2 = cur.indent()
                if p2 >= len(s) or w2 >= 5:
                    con.off += 1
                    if cur.has_space():
                        cur.eat_cols(1)
                else:
                    con.off += w2
                    cur.eat_cols(w2)
                closed = True
                continue
            break
        w, p = cur.indent()
        blank = p >= len(s)
        self.blank[i] = blank
        self.bq[i] = quoted
        if not leaf and not blank and not closed and self.tip.t == 'para':
            # lazy continuation
            self.tip.lines.append(s[p:])
            self.extend(self.tip, i)
            return
        if not leaf or con is matched:
            cut()
        if leaf:
            con.lines.append(cur.rest())
            if con.t == 'fence':
                self.extend(con, i)
                self.blank[i] = False
            elif not blank:
                self.extend(con, i)
            elif quoted is not None:
                self.extend(quoted, i)
            if con.t == 'html' and con.html <= 5 and \
               html_end(cur.rest(), con.html):
                self.close(con)
        elif blank:
            if quoted is not None:
                self.extend(quoted, i)
                if con is quoted and con.start == i:
                    pass
            if con.t == 'item' and con.start == i:
                self.extend(con, i)
                self.blank[i] = False
        elif con.t == 'para':
            con.lines.append(s[p:])
            if con.text is not None:
                con.text = None
            self.extend(con, i)
        else:
            b = self.add('para', i)
            b.lines.append(s[p:])
            self.extend(b, i)

    def done(self, b, i):
        self.extend(b, i)
        self.blank[i] = False
        while self.tip is not b:
            self.close(self.tip)
        b.open = False
        self.tip = b.parent

    def gap(self, i, j, lst):
        """is one of the lines i to j - 1 blank, seen from the list?"""
        for k in range(i, j):
            if self.blank.get(k, False):
                # a line with the marker of a quote inside the list is not
                q = self.bq[k]
                p = lst
                while p is not None and p is not q:
                    p = p.parent
                if p is q:
                    return True
        return False

    def tight(self, lst):
        for n in range(len(lst.kids)):
            it = lst.kids[n]
            end = None
            if n < len(lst.kids) - 1:
                end = lst.kids[n + 1].start
                if self.gap(it.end + 1, end, lst):
                    return False
            for m in range(len(it.kids)):
                if m < len(it.kids) - 1:
                    end2 = it.kids[m + 1].start
                else:
                    end2 = end
                if end2 is not None and \
                   self.gap(it.kids[m].end + 1, end2, lst):
                    return False
        return True


def isblank_ws(s):
    for c in s:
        if c not in WSP:
            return False
    return True


# ------------------------------------------------- escapes, entities, urls
def entity(s, p):
    """(text, end) of the entity reference at p (s[p] == '&'), or None"""
    n = len(s)
    q = p + 1
    if q < n and s[q] == '#':
        q += 1
        if q < n and s[q] in 'xX':
            q += 1
            e = q
            while e < n and e - q < 7 and s[e] in DIGITS + 'abcdefABCDEF':
                e += 1
            if e == q or e - q > 6 or e >= n or s[e] != ';':
                return None
            v = int(s[q:e], 16)
        else:
            e = q
            while e < n and e - q < 8 and s[e] in DIGITS:
                e += 1
            if e == q or e - q > 7 or e >= n or s[e] != ';':
                return None
            v = int(s[q:e])
        if v == 0 or v > 0x10ffff or 0xd800 <= v <= 0xdfff:
            return '\ufffd', e + 1
        return chr(v), e + 1
    e = q
    while e < n and s[e] in ALNUM and e - q < 33:
        e += 1
    if e == q or e >= n or s[e] != ';':
        return None
    name = s[q:e + 1]
    if name in html5:
        return html5[name], e + 1
    return None


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s) and s[i + 1] in PUNCT:
            out.append(s[i + 1])
            i += 2
            continue
        if c == '&':
            r = entity(s, i)
            if r:
                out.append(r[0])
                i = r[1]
                continue
        out.append(c)
        i += 1
    return ''.join(out)


HEX = '0123456789ABCDEF'


def url(s):
    out = []
    for c in s:
        if c in refsets.URL_OK:
            out.append(c)
        else:
            for b in c.encode('utf-8'):
                out.append('%{:02X}'.format(b))
    return ''.join(out)


def esc(s):
    out = []
    for c in s:
        if c not in '&<>"':
            out.append(c)
        elif c == '&':
            out.append('&amp;')
        elif c == '<':
            out.append('&lt;')
        elif c == '>':
            out.append('&gt;')
        else:
            out.append('&quot;')
    return ''.join(out)


def norm_label(s):
    """s: the text between the brackets"""
    out = []
    gap = False
    for c in s:
        if c in WSP:
            gap = True
        else:
            if gap and out:
                out.append(' ')
            gap = False
            out.append(c)
    return ''.join(out).casefold()


# ----------------------------------------------------------------- links
def skip_ws1(s, p):
    """whitespace with at most one line ending"""
    nl = False
    while p < len(s) and s[p] in ' \t\n':
        if s[p] == '\n':
            if nl:
                break
            nl = True
        p += 1
    return p


def label_at(s, p):
    """end of the link label at p (s[p] == '['), or None"""
    q = p + 1
    while q < len(s):
        c = s[q]
        if c == '\\' and q + 1 < len(s):
            q += 2
            continue
        if c == '[':
            return None
        if c == ']':
            return q + 1 if q - p - 1 <= 999 else None
        q += 1
    return None


def dest_at(s, p):
    """(destination, end) or None"""
    n = len(s)
    if p < n and s[p] == '<':
        q = p + 1
        while q < n:
            c = s[q]
            if c == '\n' or c == '<':
                return None
            if c == '>':
                return url(unescape(s[p + 1:q])), q + 1
            if c == '\\' and q + 1 < n and s[q + 1] != '\n':
                q += 1
            q += 1
        return None
    q = p
    depth = 0
    while q < n:
        c = s[q]
        if c == '\\' and q + 1 < n and s[q + 1] in PUNCT:
            q += 2
            continue
        if c == '(':
            depth += 1
        elif c == ')':
            if depth == 0:
                break
            depth -= 1
        elif c in refsets.CTRL:
            break
        q += 1
    if depth or q == p:
        return None
    return url(unescape(s[p:q])), q


def title_at(s, p):
    n = len(s)
    if p >= n or s[p] not in '"\'(':
        return None
    o = s[p]
    c = ')' if o == '(' else o
    q = p + 1
    while q < n:
        x = s[q]
        if x == '\\' and q + 1 < n and s[q + 1] in PUNCT:
            q += 2
            continue
        if x == c:
            return unescape(s[p + 1:q]), q + 1
        if o == '(' and x == '(':
            return None
        q += 1
    return None


def eol_after(s, p):
    """position after the line ending when only whitespace is left on the
    line, else None"""
    while p < len(s) and s[p] in ' \t':
        p += 1
    if p >= len(s):
        return p
    if s[p] == '\n':
        return p + 1
    return None


def ref_def(s):
    """(label, destination, title, end) or None"""
    e = label_at(s, 0)
    if e is None or e >= len(s) or s[e] != ':':
        return None
    label = norm_label(s[1:e - 1])
    if label == '':
        return None
    p = skip_ws1(s, e + 1)
    d = dest_at(s, p)
    if d is None:
        return None
    q = skip_ws1(s, d[1])
    if q > d[1]:
        t = title_at(s, q)
        if t is not None:
            f = eol_after(s, t[1])
            if f is not None:
                return label, d[0], t[0], f
    f = eol_after(s, d[1])
    if f is None:
        return None
    return label, d[0], '', f


def inline_tail(s, p):
    """(dest, title, end) for the part after ']' at p, or None"""
    if p >= len(s) or s[p] != '(':
        return None
    q = skip_ws1(s, p + 1)
    if q < len(s) and s[q] == ')':
        return '', '', q + 1
    d = dest_at(s, q)
    if d is None:
        return None
    q = skip_ws1(s, d[1])
    title = ''
    if q > d[1]:
        t = title_at(s, q)
        if t is not None:
            title = t[0]
            q = skip_ws1(s, t[1])
    if q < len(s) and s[q] == ')':
        return d[0], title, q + 1
    return None


# -------------------------------------------------------------- raw html
def skip_ws(s, p):
    while p < len(s) and s[p] in WSP:
        p += 1
    return p


def tag_name(s, p):
    if p >= len(s) or s[p] not in LETTERS:
        return p
    while p < len(s) and (s[p] in ALNUM or s[p] == '-'):
        p += 1
    return p


def open_tag(s, p):
    n = len(s)
    if p >= n or s[p] != '<':
        return None
    q = tag_name(s, p + 1)
    if q == p + 1:
        return None
    while True:
        r = skip_ws(s, q)
        if r == q or r >= n or s[r] not in LETTERS + '_:':
            break
        while r < n and s[r] in ALNUM + '_:.-':
            r += 1
        q = r
        r = skip_ws(s, q)
        if r < n and s[r] == '=':
            r = skip_ws(s, r + 1)
            if r >= n:
                return None
            if s[r] in '"\'':
                e = r + 1
                while e < n and s[e] != s[r]:
                    e += 1
                if e >= n:
                    return None
                q = e + 1
            else:
                e = r
                while e < n and s[e] not in WSP + '"\'=<>`':
                    e += 1
                if e == r:
                    return None
                q = e
    q = skip_ws(s, q)
    if q < n and s[q] == '/':
        q += 1
    if q < n and s[q] == '>':
        return q + 1
    return None


def close_tag(s, p):
    if s[p:p + 2] != '</':
        return None
    q = tag_name(s, p + 2)
    if q == p + 2:
        return None
    q = skip_ws(s, q)
    if q < len(s) and s[q] == '>':
        return q + 1
    return None


def find(s, p, w):
    for i in range(p, len(s) - len(w) + 1):
        if s[i:i + len(w)] == w:
            return i
    return -1


def raw_html(s, p):
    """end of the HTML tag at p (s[p] == '<'), or None"""
    n = len(s)
    r = open_tag(s, p) or close_tag(s, p)
    if r:
        return r
    if s[p:p + 4] == '<!--':
        t = p + 4
        if s[t:t + 1] == '>' or s[t:t + 2] == '->':
            return None
        e = find(s, t, '--')
        if e >= 0 and s[e + 2:e + 3] == '>':
            return e + 3
        return None
    if s[p:p + 2] == '<?':
        e = find(s, p + 2, '?>')
        return e + 2 if e >= 0 else None
    if s[p:p + 9] == '<![CDATA[':
        e = find(s, p + 9, ']]>')
        return e + 3 if e >= 0 else None
    if s[p:p + 2] == '<!':
        q = p + 2
        while q < n and s[q] in UPPER:
            q += 1
        if q > p + 2 and q < n and s[q] in WSP:
            e = find(s, q, '>')
            return e + 1 if e >= 0 else None
    return None


def autolink(s, p):
    """(destination, text, end) or None"""
    n = len(s)
    q = p + 1
    if q < n and s[q] in LETTERS:
        e = q + 1
        while e < n and e - q < 33 and s[e] in ALNUM + '+.-':
            e += 1
        if 2 <= e - q <= 32 and e < n and s[e] == ':':
            e += 1
            while e < n and s[e] not in refsets.URI_STOP:
                e += 1
            if e < n and s[e] == '>':
                t = s[q:e]
                return url(t), t, e + 1
    e = q
    while e < n and s[e] in ALNUM + ".!#$%&'*+/=?^_`{|}~-":
        e += 1
    if e > q and e < n and s[e] == '@':
        k = e + 1
        while True:
            st = k
            while k < n and (s[k] in ALNUM or s[k] == '-'):
                k += 1
            if k == st or k - st > 63 or s[st] == '-' or s[k - 1] == '-':
                return None
            if k < n and s[k] == '.':
                k += 1
                continue
            break
        if k < n and s[k] == '>':
            t = s[q:k]
            return url('mailto:' + t), t, k + 1
    return None


# --------------------------------------------------------------- inlines
SPECIAL = '\n`[]\\!<&*_\'"'


class Delim(object):
    def __init__(self, ch, n, o, c):
        self.ch = ch
        self.n = n
        self.orig = n
        self.o = o
        self.c = c
        self.txt = None


def flank(s, a, b):
    """(left, right, punctuation before, punctuation after) of run s[a:b]"""
    bef = s[a - 1] if a > 0 else '\n'
    aft = s[b] if b < len(s) else '\n'
    bw = bef in refsets.UWS
    aw = aft in refsets.UWS
    bp = not bw and bef in refsets.UPUNCT
    ap = not aw and aft in refsets.UPUNCT
    left = not aw and (not ap or bw or bp)
    right = not bw and (not bp or aw or ap)
    return left, right, bp, ap


def code_span(s, p):
    """(contents, end) or None"""
    n = run_len(s, p, '`')
    q = p + n
    while q < len(s):
        if s[q] == '`':
            m = run_len(s, q, '`')
            if m == n:
                t = s[p + n:q].replace('\n', ' ')
                if len(t) > 1 and t[0] == ' ' and t[-1] == ' ':
                    for c in t:
                        if c != ' ':
                            return t[1:-1], q + m
                return t, q + m
            q += m
        else:
            q += 1
    return None


def smart(t):
    out = []
    i = 0
    while i < len(t):
        c = t[i]
        if c == '.' and t[i:i + 3] == '...':
            out.append('\u2026')
            i += 3
        elif c == '-':
            n = run_len(t, i, '-')
            i += n
            if n == 1:
                out.append('-')
            elif n % 3 == 0:
                out.append('\u2014' * (n // 3))
            elif n % 2 == 0:
                out.append('\u2013' * (n // 2))
            elif n % 3 == 2:
                out.append('\u2014' * ((n - 2) // 3) + '\u2013')
            else:
                out.append('\u2014' * ((n - 4) // 3) + '\u2013' * 2)
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def inlines(text, refs, sm):
    s = strip(text)
    out = []
    br = []             # [index in out, image?, active?, text start]
    p = 0
    n = len(s)
    while p < n:
        c = s[p]
        if c not in SPECIAL:
            q = p + 1
            while q < n and s[q] not in SPECIAL:
                q += 1
            t = s[p:q]
            out.append(('t', smart(t) if sm else t))
            p = q
        elif c == '\n':
            hard = False
            if out and out[-1][0] == 't':
                t = out[-1][1]
                e = len(t)
                while e > 0 and t[e - 1] == ' ':
                    e -= 1
                hard = len(t) - e >= 2
                out[-1] = ('t', t[:e])
            out.append(('br',) if hard else ('sb',))
            p += 1
            while p < n and s[p] == ' ':
                p += 1
        elif c == '\\':
            if p + 1 < n and s[p + 1] == '\n':
                out.append(('br',))
                p += 2
                while p < n and s[p] == ' ':
                    p += 1
            elif p + 1 < n and s[p + 1] in PUNCT:
                out.append(('t', s[p + 1]))
                p += 2
            else:
                out.append(('t', c))
                p += 1
        elif c == '`':
            r = code_span(s, p)
            if r:
                out.append(('code', r[0]))
                p = r[1]
            else:
                k = run_len(s, p, '`')
                out.append(('t', s[p:p + k]))
                p += k
        elif c == '&':
            r = entity(s, p)
            if r:
                out.append(('e', r[0]))
                p = r[1]
            else:
                out.append(('t', c))
                p += 1
        elif c == '<':
            r = autolink(s, p)
            if r:
                out.append(('link', r[0], '', [('t', r[1])]))
                p = r[2]
                continue
            e = raw_html(s, p)
            if e:
                out.append(('html', s[p:e]))
                p = e
            else:
                out.append(('t', c))
                p += 1
        elif c in '*_':
            k = run_len(s, p, c)
            left, right, bp, ap = flank(s, p, p + k)
            if c == '*':
                o, cl = left, right
            else:
                o = left and (not right or bp)
                cl = right and (not left or ap)
            out.append(('d', Delim(c, k, o, cl)))
            p += k
        elif c in '\'"':
            if sm:
                left, right, bp, ap = flank(s, p, p + 1)
                d = Delim(c, 1, left and not right, right)
                d.txt = '\u2019' if c == "'" else '\u201c'
                out.append(('d', d))
            else:
                out.append(('t', c))
            p += 1
        elif c == '!':
            if p + 1 < n and s[p + 1] == '[':
                out.append(('t', '!['))
                br.append([len(out) - 1, True, True, p + 1])
                p += 2
            else:
                out.append(('t', c))
                p += 1
        elif c == '[':
            out.append(('t', c))
            br.append([len(out) - 1, False, True, p])
            p += 1
        else:                                       # ]
            p += 1
            if not br:
                out.append(('t', c))
                continue
            at, image, active, start = br.pop()
            if not active:
                out.append(('t', c))
                continue
            r = inline_tail(s, p)
            if r is None:
                e = None
                if p < n and s[p] == '[':
                    e = label_at(s, p)
                if e is not None and e - p > 2:
                    lab = s[p + 1:e - 1]
                else:
                    lab = s[start + 1:p - 1]
                    if e is None:
                        e = p
                    if label_at(s, start) != p:
                        lab = ''
                lab = norm_label(lab)
                if lab != '' and lab in refs:
                    d, t = refs[lab]
                    r = (d, t, e)
            if r is None:
                out.append(('t', c))
                continue
            kids = emph(out[at + 1:])
            del out[at:]
            out.append(('img' if image else 'link', r[0], r[1], kids))
            p = r[2]
            if not image:
                for b in br:
                    if not b[1]:
                        b[2] = False
    return emph(out)


def emph(items):
    i = 0
    while i < len(items):
        it = items[i]
        if it[0] != 'd' or not it[1].c:
            i += 1
            continue
        d = it[1]
        j = i - 1
        while j >= 0:
            o = items[j]
            if o[0] == 'd' and o[1].o and o[1].ch == d.ch:
                x = o[1]
                if not ((d.o or x.c) and (x.orig + d.orig) % 3 == 0 and
                        not (x.orig % 3 == 0 and d.orig % 3 == 0)):
                    break
            j -= 1
        if d.ch in '\'"':
            d.txt = '\u2019' if d.ch == "'" else '\u201d'
            if j >= 0:
                items[j][1].txt = '\u2018' if d.ch == "'" else '\u201c'
            i += 1
            continue
        if j < 0:
            i += 1
            continue
        x = items[j][1]
        use = 2 if x.n >= 2 and d.n >= 2 else 1
        x.n -= use
        d.n -= use
        node = ('em' if use == 1 else 'strong', freeze(items[j + 1:i]))
        items[j + 1:i] = [node]
        i = j + 2
        if x.n == 0:
            del items[j]
            i -= 1
        if d.n == 0:
            del items[i]
    return freeze(items)


def freeze(items):
    """delimiters that are no longer on the stack become text"""
    out = []
    for it in items:
        if it[0] == 'd':
            d = it[1]
            out.append(('q', d) if d.txt is not None
                       else ('t', d.ch * d.n))
        else:
            out.append(it)
    return out


def alt(items, soft):
    """plain text of an image description; no empty line for a hard break"""
    out = []
    alt_into(items, soft, out)
    return ''.join(out)


def alt_into(items, soft, out):
    for it in items:
        k = it[0]
        if k == 't' or k == 'e' or k == 'code' or k == 'html':
            out.append(esc(it[1]))
        elif k == 'q':
            out.append(it[1].txt)
        elif k == 'br':
            if not out or not out[-1].endswith('\n'):
                out.append('\n')
        elif k == 'sb':
            out.append(soft)
        elif k == 'em' or k == 'strong':
            alt_into(it[1], soft, out)
        else:
            alt_into(it[3], soft, out)


def ihtml(items, soft):
    out = []
    for it in items:
        k = it[0]
        if k == 't' or k == 'e':
            out.append(esc(it[1]))
        elif k == 'q':
            out.append(it[1].txt)
        elif k == 'code':
            out.append('<code>' + esc(it[1]) + '</code>')
        elif k == 'html':
            out.append(it[1])
        elif k == 'br':
            out.append('<br />\n')
        elif k == 'sb':
            out.append(soft)
        elif k == 'em' or k == 'strong':
            out.append('<' + k + '>' + ihtml(it[1], soft) + '</' + k + '>')
        else:
            t = ''
            if it[2] != '':
                t = ' title="' + esc(it[2]) + '"'
            if k == 'img':
                out.append('<img src="' + esc(it[1]) + '" alt="' +
                           alt(it[3], soft) + '"' + t + ' />')
            else:
                out.append('<a href="' + esc(it[1]) + '"' + t + '>' +
                           ihtml(it[3], soft) + '</a>')
    return ''.join(out)


# ------------------------------------------------------------------ html
def code_lines(b):
    ls = list(b.lines)
    while ls and isblank(ls[-1]):
        ls.pop()
    return ''.join([x + '\n' for x in ls])


def html_lines(b):
    ls = list(b.lines)
    while len(ls) > 1 and only_spaces(ls[-1]):
        ls.pop()
    return '\n'.join(ls)


def only_spaces(s):
    for c in s:
        if c != ' ':
            return False
    return True


class Html(object):
    def __init__(self, bl, sm=False, soft='\n'):
        self.bl = bl
        self.sm = sm
        self.soft = soft

    def inl(self, text):
        return ihtml(inlines(text, self.bl.refs, self.sm), self.soft)

    def block(self, b, tight=False):
        """HTML of a block without the line endings around it"""
        t = b.t
        if t == 'para':
            s = self.inl(b.text)
            return s if tight else '<p>' + s + '</p>'
        if t == 'head':
            h = 'h' + str(b.level)
            return '<' + h + '>' + self.inl(b.text) + '</' + h + '>'
        if t == 'hr':
            return '<hr />'
        if t == 'fence':
            w = b.info.split()
            a = ' class="language-' + esc(w[0]) + '"' if w else ''
            return '<pre><code' + a + '>' + \
                esc(''.join([x + '\n' for x in b.lines])) + '</code></pre>'
        if t == 'icode':
            return '<pre><code>' + esc(code_lines(b)) + '</code></pre>'
        if t == 'html':
            return html_lines(b)
        if t == 'quote':
            return '<blockquote>\n' + self.seq(b.kids) + '</blockquote>'
        tag = 'ul' if b.key[0] == 'b' else 'ol'
        a = ''
        if b.num is not None and b.num != 1:
            a = ' start="' + str(b.num) + '"'
        tight = self.bl.tight(b)
        out = ['<' + tag + a + '>\n']
        for it in b.kids:
            out.append('<li>' + self.item(it, tight) + '</li>\n')
        out.append('</' + tag + '>')
        return ''.join(out)

    def seq(self, kids):
        out = []
        for k in kids:
            h = self.block(k)
            out.append(h)
            if h != '\n':
                out.append('\n')
        return ''.join(out)

    def item(self, it, tight):
        """contents of <li>; tight paragraphs have no line endings around"""
        out = ''
        for k in it.kids:
            h = self.block(k, tight)
            if k.t == 'para' and tight:
                out += h
            else:
                if not out.endswith('\n'):
                    out += '\n'
                out += h + '\n'
        return out


def to_html(text, sm=False, soft='\n'):
    b = Blocks(text)
    return Html(b, sm, soft).seq(b.doc.kids)
