From 5fed2cadbafdff88fe1f224bde8cb8e7a507017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:27 +0000
Subject: [PATCH 01/31] fix: discard a potential title of a reference
 definition that is not at line end

---
 commonmark/inlines.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0aa50d3..2c6d623 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -787,20 +787,19 @@ class InlineParser(object):
         if self.pos != beforetitle:
             title = self.parseLinkTitle()
         if title is None:
-            title = ''
             # rewind before spaces
             self.pos = beforetitle
 
         # make sure we're at line end:
         at_line_end = True
         if self.match(reSpaceAtEndOfLine) is None:
-            if title == '':
+            if title is None:
                 at_line_end = False
             else:
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title == ''
+                title = None
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
@@ -819,7 +818,7 @@ class InlineParser(object):
         if not refmap.get(normlabel):
             refmap[normlabel] = {
                 'destination': dest,
-                'title': title
+                'title': title or ''
             }
         return (self.pos - startpos)
 
-- 
2.43.0


From de6205b1d6fabe5bed7dabc0788d0686b634479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:34 +0000
Subject: [PATCH 02/31] fix: a final carriage return does not add a blank line

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aeec21d..380b58e 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -891,7 +891,7 @@ class Parser(object):
         self.current_line = ''
         lines = re.split(reLineEnding, my_input)
         length = len(lines)
-        if len(my_input) > 0 and my_input[-1] == '\n':
+        if len(my_input) > 0 and my_input[-1] in ('\n', '\r'):
             # ignore last blank line created by final newline
             length -= 1
         for i in range(length):
-- 
2.43.0


From e606ef835f1e3224a843f51943667a5afe9ce298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:27 +0000
Subject: [PATCH 03/31] fix: keep HTML tag, entity, autolink and list marker
 syntax to ASCII

The spec defines them with ASCII letters, digits and whitespace, and a
no-break space in an attribute made the open tag pattern ambiguous
(exponential time).  Declarations need capital letters, processing
instructions may span lines.
---
 commonmark/blocks.py  | 12 +++++++-----
 commonmark/common.py  | 12 ++++++++----
 commonmark/inlines.py |  6 +++---
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 380b58e..03ccd6e 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -10,7 +10,8 @@ from commonmark.node import Node
 CODE_INDENT = 4
 reHtmlBlockOpen = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE),
+    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)',
+               re.IGNORECASE | common.ASCII),
     re.compile(r'^<!--'),
     re.compile(r'^<[?]'),
     re.compile(r'^<![A-Z]'),
@@ -23,14 +24,15 @@ reHtmlBlockOpen = [
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
         r'(?:\s|[/]?[>]|$)',
-        re.IGNORECASE),
+        re.IGNORECASE | common.ASCII),
     re.compile(
         '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')\\s*$',
-        re.IGNORECASE),
+        common.ASCII),
 ]
 reHtmlBlockClose = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'<\/(?:script|pre|style)>', re.IGNORECASE),
+    re.compile(r'<\/(?:script|pre|style)>',
+               re.IGNORECASE | common.ASCII),
     re.compile(r'-->'),
     re.compile(r'\?>'),
     re.compile(r'>'),
@@ -41,7 +43,7 @@ reThematicBreak = re.compile(
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
-reOrderedListMarker = re.compile(r'^(\d{1,9})([.)])')
+reOrderedListMarker = re.compile(r'^([0-9]{1,9})([.)])')
 reATXHeadingMarker = re.compile(r'^#{1,6}(?:[ \t]+|$)')
 reCodeFence = re.compile(r'^`{3,}(?!.*`)|^~{3,}')
 reClosingCodeFence = re.compile(r'^(?:`{3,}|~{3,})(?= *$)')
diff --git a/commonmark/common.py b/commonmark/common.py
index 05b52a1..5b417e6 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -19,11 +19,15 @@ else:
     from commonmark import entitytrans
     HTMLunescape = entitytrans._unescape
 
+# the syntax is defined in terms of ASCII letters, digits and whitespace
+# (Python 2 has no such flag, and needs none)
+ASCII = getattr(re, 'ASCII', 0)
+
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
 TAGNAME = '[A-Za-z][A-Za-z0-9-]*'
 ATTRIBUTENAME = '[a-zA-Z_:][a-zA-Z0-9:._-]*'
-UNQUOTEDVALUE = "[^\"'=<>`\\x00-\\x20]+"
+UNQUOTEDVALUE = "[^\"'=<>`\\s]+"
 SINGLEQUOTEDVALUE = "'[^']*'"
 DOUBLEQUOTEDVALUE = '"[^"]*"'
 ATTRIBUTEVALUE = "(?:" + UNQUOTEDVALUE + "|" + SINGLEQUOTEDVALUE + \
@@ -33,16 +37,16 @@ ATTRIBUTE = "(?:" + "\\s+" + ATTRIBUTENAME + ATTRIBUTEVALUESPEC + "?)"
 OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + "\\s*/?>"
 CLOSETAG = "</" + TAGNAME + "\\s*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
-PROCESSINGINSTRUCTION = "[<][?].*?[?][>]"
+PROCESSINGINSTRUCTION = "[<][?][\\s\\S]*?[?][>]"
 DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
-reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE)
+reHtmlTag = re.compile('^' + HTMLTAG, ASCII)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
-    '\\\\' + ESCAPABLE + '|' + ENTITY, re.IGNORECASE)
+    '\\\\' + ESCAPABLE + '|' + ENTITY, re.IGNORECASE | ASCII)
 XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 2c6d623..601f42d 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -59,7 +59,8 @@ reLinkTitle = re.compile(
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-reEntityHere = re.compile('^' + common.ENTITY, re.IGNORECASE)
+reEntityHere = re.compile(
+    '^' + common.ENTITY, re.IGNORECASE | common.ASCII)
 reTicks = re.compile(r'`+')
 reTicksHere = re.compile(r'^`+')
 reEllipses = re.compile(r'\.\.\.')
@@ -69,8 +70,7 @@ reEmailAutolink = re.compile(
     r"(?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
-    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
-    re.IGNORECASE)
+    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
 reSpnl = re.compile(r'^ *(?:\n *)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-- 
2.43.0


From c26f8191c491568ee0f62d9c839107746e785e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:44 +0000
Subject: [PATCH 04/31] fix: decode entities and numeric character references
 as the spec says

html.unescape follows browsers instead: it decodes '&copyx;' by its
longest prefix, maps C1 numbers to Windows-1252 and drops control
characters, which left empty text nodes that crashed parseNewline
('&#1;' before a line ending).
---
 commonmark/common.py  | 33 +++++++++++++++++++++++----------
 commonmark/inlines.py | 17 +++--------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 5b417e6..638720c 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -8,16 +8,12 @@ try:
 except ImportError:
     from urllib import quote
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
+from builtins import chr
+
+if sys.version_info >= (3, 4):
+    from html.entities import html5
 else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
+    from commonmark.entitytrans import _html5 as html5
 
 # the syntax is defined in terms of ASCII letters, digits and whitespace
 # (Python 2 has no such flag, and needs none)
@@ -51,11 +47,28 @@ XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
 
+def unescape_entity(s):
+    """
+    Return the text that an entity or numeric character reference (from its
+    ampersand to its semicolon) stands for.  What names no entity stands
+    for itself.
+    """
+    if s[1] != '#':
+        return html5.get(s[1:], s)
+    if s[2] in 'xX':
+        num = int(s[3:-1], 16)
+    else:
+        num = int(s[2:-1])
+    if num == 0 or 0xD800 <= num <= 0xDFFF or num > 0x10FFFF:
+        return '\uFFFD'
+    return chr(num)
+
+
 def unescape_char(s):
     if s[0] == '\\':
         return s[1]
     else:
-        return HTMLunescape(s)
+        return unescape_entity(s)
 
 
 def unescape_string(s):
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 601f42d..48e902c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,23 +1,12 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
-import sys
 from commonmark import common
-from commonmark.common import normalize_uri, unescape_string
+from commonmark.common import (
+    normalize_uri, unescape_entity, unescape_string)
 from commonmark.node import Node
 from commonmark.normalize_reference import normalize_reference
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
-else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
-
 # Some regexps used in inline parser:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
@@ -708,7 +697,7 @@ class InlineParser(object):
         """Attempt to parse an entity."""
         m = self.match(reEntityHere)
         if m:
-            block.append_child(text(HTMLunescape(m)))
+            block.append_child(text(unescape_entity(m)))
             return True
         else:
             return False
-- 
2.43.0


From 3ac2db3df4b0fb3133c36c12804861b256667cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:14 +0000
Subject: [PATCH 05/31] fix: bound the search for emphasis openers by the kind
 of closer

A single bound per delimiter character hides openers that only another
kind of closer may not match: '_**a*a**' lost its strong emphasis.
---
 commonmark/inlines.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 48e902c..aafa1ac 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -346,12 +346,9 @@ class InlineParser(object):
             top['previous'] = bottom
 
     def processEmphasis(self, stack_bottom):
-        openers_bottom = {
-            '_': stack_bottom,
-            '*': stack_bottom,
-            "'": stack_bottom,
-            '"': stack_bottom,
-        }
+        # Lower bounds for the search for an opener, for each kind of closer:
+        # which openers match depends on no more than this.
+        openers_bottom = {}
         odd_match = False
         use_delims = 0
 
@@ -370,8 +367,11 @@ class InlineParser(object):
                 opener = closer.get('previous')
                 opener_found = False
                 closercc = closer.get('cc')
+                bottom_key = (closercc, bool(closer.get('can_open')),
+                              closer['origdelims'] % 3)
                 while (opener is not None and opener != stack_bottom and
-                       opener != openers_bottom[closercc]):
+                       opener != openers_bottom.get(
+                           bottom_key, stack_bottom)):
                     odd_match = (closer.get('can_open') or
                                  opener.get('can_close')) and \
                                  closer['origdelims'] % 3 != 0 and \
@@ -448,13 +448,9 @@ class InlineParser(object):
                         opener['node'].literal = '\u201C'
                     closer = closer['next']
 
-                if not opener_found and not odd_match:
+                if not opener_found:
                     # Set lower bound for future searches for openers:
-                    # We don't do this with odd_match because a **
-                    # that doesn't match an earlier * might turn into
-                    # an opener, and the * might be matched by something
-                    # else.
-                    openers_bottom[closercc] = old_closer['previous']
+                    openers_bottom[bottom_key] = old_closer['previous']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
                         # once we've seen there's no matching opener:
-- 
2.43.0


From 92e53e9e20a2ecba716a64790a12d2498c1a8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:12 +0000
Subject: [PATCH 06/31] fix: let a link title end at its first unescaped
 delimiter only

A backslash also matched as an ordinary character, so '"a\"' was a
complete title, and a title of escapes without an end took exponential
time.
---
 commonmark/inlines.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index aafa1ac..9e47e84 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -9,8 +9,6 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
-ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
-
 rePunctuation = re.compile(
     r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
     r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
@@ -40,11 +38,11 @@ rePunctuation = re.compile(
 )
 
 reLinkTitle = re.compile(
-    '^(?:"(' + ESCAPED_CHAR + '|[^"\\x00])*"' +
+    '^(?:"(?:\\\\[\\s\\S]|[^"\\\\\\x00])*"' +
     '|' +
-    '\'(' + ESCAPED_CHAR + '|[^\'\\x00])*\'' +
+    '\'(?:\\\\[\\s\\S]|[^\'\\\\\\x00])*\'' +
     '|' +
-    '\\((' + ESCAPED_CHAR + '|[^()\\x00])*\\))')
+    '\\((?:\\\\[\\s\\S]|[^()\\\\\\x00])*\\))')
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-- 
2.43.0


From b0f10072c29fb11e2bb23ac149eba48a25edea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:21 +0000
Subject: [PATCH 07/31] fix: allow tabs around the destination and title of a
 link

---
 commonmark/inlines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 9e47e84..e9d90e8 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -58,13 +58,13 @@ reEmailAutolink = re.compile(
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
-reSpnl = re.compile(r'^ *(?:\n *)?')
+reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
-reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
+reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
 reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]')
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
-- 
2.43.0


From d540bc7c2ad74b9d5d389070085685f638b447dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:28 +0000
Subject: [PATCH 08/31] fix: allow a backslash before a line ending in a link
 label

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index e9d90e8..0b0c5f6 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -65,7 +65,7 @@ reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
-reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]')
+reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
-- 
2.43.0


From d378b29f407840ee0f288b00329b49c9bf481a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:05 +0000
Subject: [PATCH 09/31] fix: require balanced parentheses in a link destination

---
 commonmark/inlines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0b0c5f6..60b5fd8 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -506,6 +506,8 @@ class InlineParser(object):
                     self.pos += 1
             if self.pos == savepos and c != ')':
                 return None
+            if openparens != 0:
+                return None
             res = self.subject[savepos:self.pos]
             return normalize_uri(unescape_string(res))
         else:
-- 
2.43.0


From c7b039feae7baea52f51d30cb4f1ffac2d3a502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:11 +0000
Subject: [PATCH 10/31] fix: end a link destination at a control character

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 60b5fd8..cebc290 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -60,6 +60,7 @@ reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
+reSpaceOrControlChar = re.compile(r'^[\x00-\x20]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
@@ -500,7 +501,7 @@ class InlineParser(object):
                     else:
                         self.pos += 1
                         openparens -= 1
-                elif re.search(reWhitespaceChar, c):
+                elif re.search(reSpaceOrControlChar, c):
                     break
                 else:
                     self.pos += 1
-- 
2.43.0


From 5fc448ad0a9e08493ad91dc8501769dd360b2b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:18 +0000
Subject: [PATCH 11/31] fix: look for a reference right after the bracket when
 no inline link follows

'[foo](not a link [bar]' took [bar] for the label of [foo].
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index cebc290..bda2bc4 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -610,7 +610,7 @@ class InlineParser(object):
                 if self.spnl() and self.peek() == ')':
                     self.pos += 1
                     matched = True
-            else:
+            if not matched:
                 self.pos = savepos
 
         if not matched:
-- 
2.43.0


From da617e99afa20ede7caa5795037cbd7caf8daec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:24 +0000
Subject: [PATCH 12/31] fix: do not interrupt a lazy paragraph with a complete
 HTML tag

---
 commonmark/blocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 03ccd6e..fb816d9 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -503,7 +503,11 @@ class BlockStarts(object):
 
             for block_type in range(1, 8):
                 if re.search(reHtmlBlockOpen[block_type], s) and \
-                   (block_type < 7 or container.t != 'paragraph'):
+                   (block_type < 7 or
+                    not (container.t == 'paragraph' or
+                         # maybe lazy
+                         (not parser.all_closed and
+                          parser.tip.t == 'paragraph'))):
                     parser.close_unmatched_blocks()
                     # We don't adjust parser.offset;
                     # spaces are part of the HTML block:
-- 
2.43.0


From 613e3e2970b1d4451b9ab4f2ef213784e6ca6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:54 +0000
Subject: [PATCH 13/31] fix: drop trailing blank lines with tabs from indented
 code

---
 commonmark/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index fb816d9..4f4f2a0 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -358,7 +358,8 @@ class CodeBlock(Block):
             block.literal = rest
         else:
             # indented
-            block.literal = re.sub(r'(\n *)+$', '\n', block.string_content)
+            block.literal = re.sub(
+                r'(\n[ \t]*)+$', '\n', block.string_content)
 
         block.string_content = None
 
-- 
2.43.0


From 87d6be2d86e66fc2a4adc9bcacfb5864ab7ff627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:00 +0000
Subject: [PATCH 14/31] fix: no empty paragraph for reference definitions
 before a thematic break

---
 commonmark/blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 4f4f2a0..09cc27e 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -399,7 +399,9 @@ class Paragraph(Block):
 
     @staticmethod
     def finalize(parser=None, block=None):
-        has_reference_defs = False
+        # reference definitions may have been taken already, when a setext
+        # heading line followed them
+        has_reference_defs = block.string_content == ''
 
         # try parsing the beginning as link reference definitions:
         while peek(block.string_content, 0) == '[':
-- 
2.43.0


From d928c2c57243218f59019c826203c7e997ca58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:07 +0000
Subject: [PATCH 15/31] fix: escape raw HTML in the alt attribute of an image

---
 commonmark/render/html.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index b4ea345..bf5b874 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -184,7 +184,10 @@ class HtmlRenderer(Renderer):
             self.cr()
 
     def html_inline(self, node, entering):
-        if self.options.get('safe'):
+        if self.disable_tags > 0:
+            # in the alt text of an image
+            self.out(node.literal)
+        elif self.options.get('safe'):
             self.lit('<!-- raw HTML omitted -->')
         else:
             self.lit(node.literal)
-- 
2.43.0


From 8adf95426f2b816a9bf56e453edabdb82b00578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:54 +0000
Subject: [PATCH 16/31] fix: strip and collapse what the spec calls whitespace,
 and no more

str.strip() also takes no-break spaces, line separators and other
characters that are content of a paragraph, info string or link label.
---
 commonmark/blocks.py              |  3 ++-
 commonmark/common.py              |  3 +++
 commonmark/inlines.py             |  2 +-
 commonmark/normalize_reference.py | 10 ++++++----
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 09cc27e..0dc19f8 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -354,7 +354,8 @@ class CodeBlock(Block):
             newline_pos = content.index('\n')
             first_line = content[0:newline_pos]
             rest = content[newline_pos + 1:]
-            block.info = unescape_string(first_line.strip())
+            block.info = unescape_string(
+                first_line.strip(common.WHITESPACE))
             block.literal = rest
         else:
             # indented
diff --git a/commonmark/common.py b/commonmark/common.py
index 638720c..42a7c07 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -19,6 +19,9 @@ else:
 # (Python 2 has no such flag, and needs none)
 ASCII = getattr(re, 'ASCII', 0)
 
+# what the spec calls whitespace
+WHITESPACE = ' \t\n\x0b\x0c\r'
+
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
 TAGNAME = '[A-Za-z][A-Za-z0-9-]*'
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index bda2bc4..00b8d5a 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -854,7 +854,7 @@ class InlineParser(object):
         Parse string content in block into inline children,
         using refmap to resolve references.
         """
-        self.subject = block.string_content.strip()
+        self.subject = block.string_content.strip(common.WHITESPACE)
         self.pos = 0
         self.delimiters = None
         self.brackets = None
diff --git a/commonmark/normalize_reference.py b/commonmark/normalize_reference.py
index d68a3b1..da5d062 100644
--- a/commonmark/normalize_reference.py
+++ b/commonmark/normalize_reference.py
@@ -14,6 +14,7 @@
 import re
 import sys
 from builtins import str, chr
+from commonmark.common import WHITESPACE
 
 __all__ = ["normalize_reference"]
 
@@ -107,21 +108,21 @@ def _check_native(tbl):
 
 
 # Hoist version check out of function for performance
-SPACE_RE = re.compile(r'[ \t\r\n]+')
+SPACE_RE = re.compile('[' + WHITESPACE + ']+')
 if _check_native(XLAT):
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).casefold()
+        return SPACE_RE.sub(' ', string[1:-1].strip(WHITESPACE)).casefold()
 elif sys.version_info >= (3,) or sys.maxunicode > 0xffff:
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).translate(XLAT)
+        return SPACE_RE.sub(' ', string[1:-1].strip(WHITESPACE)).translate(XLAT)
 else:
     def _get_smp_regex():
         xls = sorted(x - 0x10000 for x in XLAT if x >= 0x10000)
@@ -162,4 +163,5 @@ else:
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SMP_RE.sub(_subst_handler, string[1:-1].strip()).translate(XLAT)
+        return SMP_RE.sub(
+            _subst_handler, string[1:-1].strip(WHITESPACE)).translate(XLAT)
-- 
2.43.0


From a6e22686c4a5d0be8f3291001bac4a8109cc6b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:17 +0000
Subject: [PATCH 17/31] fix: judge flanking by the whitespace characters that
 the spec lists

---
 commonmark/inlines.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 00b8d5a..cc80de5 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -62,7 +62,8 @@ reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reSpaceOrControlChar = re.compile(r'^[\x00-\x20]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-reUnicodeWhitespaceChar = re.compile(r'^\s')
+reUnicodeWhitespaceChar = re.compile(
+    r'^[ \t\n\x0c\x0d\xA0\u1680\u2000-\u200A\u202F\u205F\u3000]')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
@@ -260,13 +261,9 @@ class InlineParser(object):
         if c_after is None:
             c_after = '\n'
 
-        # Python 2 doesn't recognize '\xa0' as whitespace
-        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after) or \
-            c_after == '\xa0'
+        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after)
         after_is_punctuation = re.search(rePunctuation, c_after)
-        before_is_whitespace = re.search(
-            reUnicodeWhitespaceChar, c_before) or \
-            c_before == '\xa0'
+        before_is_whitespace = re.search(reUnicodeWhitespaceChar, c_before)
         before_is_punctuation = re.search(rePunctuation, c_before)
 
         left_flanking = not after_is_whitespace and \
-- 
2.43.0


From 5074f2097ddf1a7e6fc0a5e9c8eb0e35140ed431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:26 +0000
Subject: [PATCH 18/31] fix: recognize punctuation outside the basic
 multilingual plane

The pattern spelled it as UTF-16 surrogate pairs, which no Python 3
string contains.
---
 commonmark/inlines.py | 41 +++++++++++------------------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index cc80de5..d33bc22 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
+import string
+import unicodedata
 from commonmark import common
 from commonmark.common import (
     normalize_uri, unescape_entity, unescape_string)
@@ -9,34 +11,6 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
-rePunctuation = re.compile(
-    r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
-    r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
-    r'\u05C6\u05F3\u05F4\u0609\u060A\u060C\u060D\u061B\u061E\u061F'
-    r'\u066A-\u066D\u06D4\u0700-\u070D\u07F7-\u07F9\u0830-\u083E'
-    r'\u085E\u0964\u0965\u0970\u0AF0\u0DF4\u0E4F\u0E5A\u0E5B\u0F04-\u0F12'
-    r'\u0F14\u0F3A-\u0F3D\u0F85\u0FD0-\u0FD4\u0FD9\u0FDA\u104A-\u104F\u10FB'
-    r'\u1360-\u1368\u1400\u166D\u166E\u169B\u169C\u16EB-\u16ED\u1735\u1736'
-    r'\u17D4-\u17D6\u17D8-\u17DA\u1800-\u180A\u1944\u1945\u1A1E\u1A1F\u1AA0-'
-    r'\u1AA6\u1AA8-\u1AAD\u1B5A-\u1B60\u1BFC-\u1BFF\u1C3B-\u1C3F\u1C7E\u1C7F'
-    r'\u1CC0-\u1CC7\u1CD3\u2010-\u2027\u2030-\u2043\u2045-\u2051\u2053-\u205E'
-    r'\u207D\u207E\u208D\u208E\u2308-\u230B\u2329\u232A\u2768-\u2775\u27C5'
-    r'\u27C6\u27E6-\u27EF\u2983-\u2998\u29D8-\u29DB\u29FC\u29FD\u2CF9-\u2CFC'
-    r'\u2CFE\u2CFF\u2D70\u2E00-\u2E2E\u2E30-\u2E42\u3001-\u3003\u3008-\u3011'
-    r'\u3014-\u301F\u3030\u303D\u30A0\u30FB\uA4FE\uA4FF\uA60D-\uA60F\uA673'
-    r'\uA67E\uA6F2-\uA6F7\uA874-\uA877\uA8CE\uA8CF\uA8F8-\uA8FA\uA8FC\uA92E'
-    r'\uA92F\uA95F\uA9C1-\uA9CD\uA9DE\uA9DF\uAA5C-\uAA5F\uAADE\uAADF\uAAF0'
-    r'\uAAF1\uABEB\uFD3E\uFD3F\uFE10-\uFE19\uFE30-\uFE52\uFE54-\uFE61\uFE63'
-    r'\uFE68\uFE6A\uFE6B\uFF01-\uFF03\uFF05-\uFF0A\uFF0C-\uFF0F\uFF1A\uFF1B'
-    r'\uFF1F\uFF20\uFF3B-\uFF3D\uFF3F\uFF5B\uFF5D\uFF5F-\uFF65]|\uD800[\uDD00-'
-    r'\uDD02\uDF9F\uDFD0]|\uD801\uDD6F|\uD802[\uDC57\uDD1F\uDD3F\uDE50-\uDE58'
-    r'\uDE7F\uDEF0-\uDEF6\uDF39-\uDF3F\uDF99-\uDF9C]|\uD804[\uDC47-\uDC4D'
-    r'\uDCBB\uDCBC\uDCBE-\uDCC1\uDD40-\uDD43\uDD74\uDD75\uDDC5-\uDDC9\uDDCD'
-    r'\uDDDB\uDDDD-\uDDDF\uDE38-\uDE3D\uDEA9]|\uD805[\uDCC6\uDDC1-\uDDD7'
-    r'\uDE41-\uDE43\uDF3C-\uDF3E]|\uD809[\uDC70-\uDC74]|\uD81A[\uDE6E\uDE6F'
-    r'\uDEF5\uDF37-\uDF3B\uDF44]|\uD82F\uDC9F|\uD836[\uDE87-\uDE8B]'
-)
-
 reLinkTitle = re.compile(
     '^(?:"(?:\\\\[\\s\\S]|[^"\\\\\\x00])*"' +
     '|' +
@@ -72,6 +46,13 @@ reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
 
+def is_punctuation(c):
+    """ Returns True if c is ASCII punctuation or in one of the Unicode
+    general categories for punctuation."""
+    return c in string.punctuation or \
+        unicodedata.category(c).startswith('P')
+
+
 def text(s):
     node = Node('text', None)
     node.literal = s
@@ -262,9 +243,9 @@ class InlineParser(object):
             c_after = '\n'
 
         after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after)
-        after_is_punctuation = re.search(rePunctuation, c_after)
+        after_is_punctuation = is_punctuation(c_after)
         before_is_whitespace = re.search(reUnicodeWhitespaceChar, c_before)
-        before_is_punctuation = re.search(rePunctuation, c_before)
+        before_is_punctuation = is_punctuation(c_before)
 
         left_flanking = not after_is_whitespace and \
             (not after_is_punctuation or
-- 
2.43.0


From 728f76899502bf7fb9ba973712b3472c33fe0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:26 +0000
Subject: [PATCH 19/31] fix: a list item numbered 01 interrupts a paragraph
 like any 1

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 0dc19f8..574de21 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -104,7 +104,7 @@ def parse_list_marker(parser, container):
     if m:
         data['type'] = 'bullet'
         data['bullet_char'] = m.group()[0]
-    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
+    elif m2 and (container.t != 'paragraph' or int(m2.group(1)) == 1):
         m = m2
         data['type'] = 'ordered'
         data['start'] = int(m.group(1))
-- 
2.43.0


From 4f6bc23c152352618fef5d091c6782b975f6843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:32 +0000
Subject: [PATCH 20/31] fix: an empty line of a block quote does not make the
 list around it loose

---
 commonmark/blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 574de21..063fd0e 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -837,6 +837,9 @@ class Parser(object):
             # propagate last_line_blank up through parents:
             cont = container
             while cont:
+                if cont.t == 'block_quote':
+                    # nor are they for what contains the block quote
+                    last_line_blank = False
                 cont.last_line_blank = last_line_blank
                 cont = cont.parent
 
-- 
2.43.0


From fa18304e8b56a1233e8e0d788e4e80f66086171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:52 +0000
Subject: [PATCH 21/31] fix: underline RST headings that are empty or begin
 with markup

Their first child has no literal, or there is none, so that rendering
'#' or '# *a*' raised an exception.
---
 commonmark/render/rst.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 45adca3..bdec773 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -150,12 +150,15 @@ class ReStructuredTextRenderer(Renderer):
             # Default to the last level if we're in too deep
             heading_char = heading_chars[-1]
 
-        heading_length = len(node.first_child.literal)
-        banner = heading_char * heading_length
-
         if entering:
             self.cr()
+            self.heading_start = len(self.buf)
         else:
+            # as long as the title, without its indentation
+            heading_length = \
+                len(self.buf) - self.heading_start - self.indent_length
+            banner = heading_char * heading_length
+
             self.cr()
             self.out(banner)
             self.cr()
-- 
2.43.0


From ac36b6da8b6bbcaea8d95d19268c939dbcc353b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:13 +0000
Subject: [PATCH 22/31] fix: indent every line of a code block in RST

In a list item or block quote only the first line got the indentation
of the container, and form feeds or line separators were lost.
---
 commonmark/render/rst.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index bdec773..64b803c 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -42,7 +42,12 @@ class ReStructuredTextRenderer(Renderer):
         indent = self.indent_char * indent_length
         new_lines = []
 
-        for line in literal.splitlines():
+        # the line endings of a code block, and no other separators
+        lines = literal.split('\n')
+        if lines[-1] == '':
+            lines.pop()
+
+        for line in lines:
             new_lines.append(indent + line)
 
         return '\n'.join(new_lines)
@@ -111,8 +116,9 @@ class ReStructuredTextRenderer(Renderer):
         self.out(directive)
         self.cr()
         self.cr()
-        self.out(self.indent_lines(node.literal))
-        self.cr()
+        for line in self.indent_lines(node.literal).split('\n'):
+            self.out(line)
+            self.cr()
 
     def list(self, node, entering):
         if entering:
-- 
2.43.0


From 3ae43752afd8b9d29929181403fcbd0dd19db5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:20 +0000
Subject: [PATCH 23/31] fix: separate the blocks of a list item in RST

The text of two paragraphs ran together ('- a' and 'b' became '* ab').
---
 commonmark/render/rst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 64b803c..34b797a 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -74,7 +74,8 @@ class ReStructuredTextRenderer(Renderer):
         self.out('**')
 
     def paragraph(self, node, entering):
-        if node.parent.t == 'item':
+        sibling = node.prv if entering else node.nxt
+        if node.parent.t == 'item' and sibling is None:
             pass
         else:
             self.cr()
-- 
2.43.0


From f14141d2544ac892dfe2aa78348a3409bc136ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:01 +0000
Subject: [PATCH 24/31] fix: give each HTML renderer options of its own

They were the dictionary of the caller, or a default shared by all
renderers, and written to.
---
 commonmark/render/html.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index bf5b874..0a65c0a 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -20,6 +20,7 @@ def potentially_unsafe(url):
 
 class HtmlRenderer(Renderer):
     def __init__(self, options={}):
+        options = dict(options)
         #  by default, soft breaks are rendered as newlines in HTML
         options['softbreak'] = options.get('softbreak') or '\n'
         # set to "<br />" to make them hard breaks
-- 
2.43.0


From 55b550ae775a2d380856bf4a946a962e761dcccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:04 +0000
Subject: [PATCH 25/31] fix: source position of a block that ends on its own
 last line

The end column of fenced code and HTML blocks with an end marker was
the length of the line before.
---
 commonmark/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 063fd0e..2a0b83d 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -328,6 +328,7 @@ class CodeBlock(Block):
                 re.search(reClosingCodeFence, ln[parser.next_nonspace:])
             if match and len(match.group()) >= container.fence_length:
                 # closing fence - we're at end of line, so we can return
+                parser.last_line_length = len(ln)
                 parser.finalize(container, parser.line_number)
                 return 2
             else:
@@ -852,6 +853,7 @@ class Parser(object):
                    re.search(
                        reHtmlBlockClose[container.html_block_type],
                        self.current_line[self.offset:]):
+                    self.last_line_length = len(ln)
                     self.finalize(container, self.line_number)
             elif self.offset < len(ln) and not self.blank:
                 # create a paragraph container for one line
-- 
2.43.0


From d0048d2bd884bfe70c4d104dc3ca51f1522ff3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:07 +0000
Subject: [PATCH 26/31] fix: keep the whitespace of blank code lines in list
 items

---
 commonmark/blocks.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 2a0b83d..fd2389c 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -256,17 +256,17 @@ class Item(Block):
 
     @staticmethod
     def continue_(parser=None, container=None):
-        if parser.blank:
-            if container.first_child is None:
-                # Blank line after empty list item
-                return 1
-            else:
-                parser.advance_next_nonspace()
+        if parser.blank and container.first_child is None:
+            # Blank line after empty list item
+            return 1
         elif parser.indent >= (container.list_data['marker_offset'] +
                                container.list_data['padding']):
+            # also when blank: what follows may belong to a code block
             parser.advance_offset(
                 container.list_data['marker_offset'] +
                 container.list_data['padding'], True)
+        elif parser.blank:
+            parser.advance_next_nonspace()
         else:
             return 1
         return 0
-- 
2.43.0


From 447ebc669df37f9cc96e6bedb137d579a74614f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:05 +0000
Subject: [PATCH 27/31] fix: a list item that began with a link definition is
 not empty

---
 commonmark/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index fd2389c..c43db06 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -256,7 +256,8 @@ class Item(Block):
 
     @staticmethod
     def continue_(parser=None, container=None):
-        if parser.blank and container.first_child is None:
+        if parser.blank and container.first_child is None and \
+           parser.line_number == container.sourcepos[0][0] + 1:
             # Blank line after empty list item
             return 1
         elif parser.indent >= (container.list_data['marker_offset'] +
-- 
2.43.0


From a197fbc1124ca4b5033e1fa4140a052131bbb1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:41 +0000
Subject: [PATCH 28/31] fix: h2 to h6 start HTML blocks too

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index c43db06..08613f4 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -19,7 +19,7 @@ reHtmlBlockOpen = [
     re.compile(
         r'^<[/]?(?:address|article|aside|base|basefont|blockquote|body|'
         r'caption|center|col|colgroup|dd|details|dialog|dir|div|dl|dt|'
-        r'fieldset|figcaption|figure|footer|form|frame|frameset|h1|head|'
+        r'fieldset|figcaption|figure|footer|form|frame|frameset|h[1-6]|head|'
         r'header|hr|html|iframe|legend|li|link|main|menu|menuitem|'
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
-- 
2.43.0


From 46adcfb553419d6610fc7f72be981cbd0b7a1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:25 +0000
Subject: [PATCH 29/31] fix: a space written as an entity is not stripped
 before a newline

---
 commonmark/inlines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index d33bc22..f59f1cc 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -702,7 +702,9 @@ class InlineParser(object):
         # assume we're at a \n
         self.pos += 1
         lastc = block.last_child
-        if lastc and lastc.t == 'text' and lastc.literal[-1] == ' ':
+        # look at the source: a space may also come from an entity
+        if lastc and lastc.t == 'text' and \
+           self.subject[self.pos - 2] == ' ':
             linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
             lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
             if linebreak:
-- 
2.43.0


From 052b21b2cbea521f45935eba4f2af74fc64e27be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:07:08 +0000
Subject: [PATCH 30/31] fix: a renderer whose last call failed starts afresh

---
 commonmark/render/html.py | 5 +++++
 commonmark/render/rst.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 0a65c0a..d4225b1 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -30,6 +30,11 @@ class HtmlRenderer(Renderer):
         self.last_out = '\n'
         self.options = options
 
+    def render(self, ast):
+        # an earlier call may have failed within an image
+        self.disable_tags = 0
+        return super(HtmlRenderer, self).render(ast)
+
     def escape(self, text):
         return escape_xml(text)
 
diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 34b797a..6499ae3 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -25,6 +25,11 @@ class ReStructuredTextRenderer(Renderer):
         self.indent_char = indent_char
         self.indent_length = 0
 
+    def render(self, ast):
+        # an earlier call may have failed within an indented block
+        self.indent_length = 0
+        return super(ReStructuredTextRenderer, self).render(ast)
+
     def lit(self, s):
         if s == '\n':
             indent = ''  # Avoid whitespace if we're just adding a newline
-- 
2.43.0


From e0c0875e06161347a586120079c6c903e146bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 31/31] fix: safe mode took vbscript:, file: and data: anywhere
 in a URL for its scheme

---
 commonmark/render/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index d4225b1..0592295 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -8,7 +8,7 @@ from commonmark.render.renderer import Renderer
 
 
 reUnsafeProtocol = re.compile(
-    r'^javascript:|vbscript:|file:|data:', re.IGNORECASE)
+    r'^(?:javascript|vbscript|file|data):', re.IGNORECASE)
 reSafeDataProtocol = re.compile(
     r'^data:image\/(?:png|gif|jpeg|webp)', re.IGNORECASE)
 
-- 
2.43.0

