"""Writes properties.jsonl and MANIFEST.json from the list below and from the
bounds stated in the checks."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'checks'), HERE, os.path.join(HERE, 'sym')]

B, I, C, N = ('commonmark/blocks.py', 'commonmark/inlines.py',
              'commonmark/common.py', 'commonmark/node.py')
H, R, S = ('commonmark/render/html.py', 'commonmark/render/renderer.py',
           'commonmark/render/rst.py')
D, M, L, E, X = ('commonmark/dump.py', 'commonmark/main.py',
                 'commonmark/cmark.py', 'commonmark/entitytrans.py',
                 'commonmark/normalize_reference.py')
inputs, conf, hist, prog = 'inputs', 'configurations', 'histories', 'programs'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech):
    PROPS.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files,
                    'mechanism': [{'name': a, 'where': b} for a, b in mech]}})


prop('C01', 'Every text parses and renders, in every output format', '''
Any text whatsoever can be parsed, and the document can be rendered as HTML
and as reStructuredText, dumped as JSON and as an outline, with any of the
options, without an exception and without running on for ever. This holds for
texts with hundreds or thousands of nested or unclosed constructs too.''',
[inputs, conf], '''for every text of Unicode scalar values, every renderer, dump
and option''', '''the tests parse some 650 chosen examples; no test renders odd
texts as reStructuredText, and totality is about the texts nobody thought
of''', [B, I, C, N, H, R, S, D, X, E],
[('every start and continuation rule consumes or declines', B),
 ('every inline rule advances or yields one literal character',
  I + ':parseInline'),
 ('references that are no characters decode to U+FFFD', E)])

prop('C02', 'The parser returns a well-formed tree', '''
A parsed document is a tree whose parent, child and sibling links agree with
each other, whose root is a document, and in which every node stands only where
CommonMark allows it: items in lists only, lists with items only, blocks in
block containers, inline nodes in paragraphs and headings. The fields a node
has fit its kind: levels from 1 to 6, list types and start numbers, literals
of texts and code, destinations and titles of links that are strings.''',
[inputs, conf], 'for every text, with and without the smart option', '''no test
looks at the tree as a whole: the example tests compare HTML, and many broken
trees render to the same HTML''', [B, I, N],
[('can_contain of each block', B), ('add_child finalizes what cannot contain',
  B + ':Parser.add_child'), ('link surgery of emphasis and brackets',
  I + ':processEmphasis'), ('append_child and unlink', N)])

prop('C03', 'HTML output is well-formed and escaped', '''
The HTML of a document is balanced: every element that is opened is closed in
order, attributes are quoted, and void elements are the only ones left alone.
Every <, >, & and " that comes from the text, in whatever construct, arrives
escaped, so that the text can bring in no markup except by its own raw
HTML.''', [inputs, conf, prog], '''for every text, every combination of the safe,
sourcepos and smart options, and every tree a program builds by hand''', '''the
tests compare some documents; that nothing escapes is a claim about every
character in every field of every construct''', [H, R, C, I],
[('escape_xml on texts, code, attributes', H), ('tag() pairs', H),
 ('alt text is plain text', H + ':image')])

prop('C04', 'Safe mode lets no raw HTML and no dangerous URL through', '''
With the safe option no raw HTML of the text, block or inline, reaches the
output, and no link or image in the output has a javascript:, vbscript:, file:
or data: URL, however it is spelled, except data: images of the four usual
types. Without the option, and for all other URLs and text, nothing is
left out.''', [inputs, conf], '''for every text, every way to spell a URL (letter
case, references, escapes, percent signs) in every construct that makes one''',
'''the test suite has no test of safe mode at all, and what an attacker writes is
not among samples''', [H, C], [('potentially_unsafe', H),
 ('html_inline and html_block', H), ('link and image attributes', H)])

prop('C05', 'Line endings, the end of the text and NUL', '''
LF, CR and CR LF end a line alike: texts that differ in the kinds of their line
endings only give the same document. A line ending at the very end of
the text makes no difference, and NUL is read as U+FFFD.''', [inputs], '''for every
text and every mixture of line endings in it''', '''the examples use LF only''',
[B, I], [('reLineEnding split', B + ':Parser.parse'),
 ('NUL replacement', B + ':Parser.incorporate_line')])

prop('C06', 'Tabs count as spaces up to the next tab stop of four', '''
Where white space decides about block structure, a tab is worth as many spaces
as bring the column to the next multiple of four: writing those spaces instead
gives the same structure. Tabs that are not part of the indentation stay
tabs in the contents.''', [inputs], '''for every mixture of tabs, spaces and
container markers at the begin of lines, in every block context''', '''eleven
examples of tabs; columns within nested containers interact in far more
ways''', [B], [('advance_offset with partially consumed tabs', B),
 ('find_next_nonspace', B), ('add_line', B)])

prop('C07', 'Block quote law', '''
If a text is the source of some blocks, then the text with > or > and a space
before each of its lines is the source of a block quote with those same blocks.
Leaving the marker out is possible exactly before lines that continue
a paragraph, and what ends, joins and nests quotes is as the CommonMark
specification says.''', [inputs], '''for every text put into a quote, with every
indentation of the marker''', '''a law about all contents of a quote; the examples
show about 25''', [B], [('BlockQuote.continue_', B),
 ('BlockStarts.block_quote', B), ('lazy continuation', B +
 ':Parser.incorporate_line')])

prop('C08', 'List item law', '''
If a text is the source of some blocks, then the text with a list marker and
one to four spaces before its first line and as much indentation before the
others is the source of a list item with those same blocks. What an item that
begins with code or with an empty line contains is as the CommonMark
specification says.''', [inputs], '''for every text put into an item, every marker,
padding and indentation''', '''a law about all contents of an item; the examples
show about 40''', [B], [('parse_list_marker', B), ('Item.continue_', B),
 ('BlockStarts.list_item', B)])

prop('C09', 'Code blocks are verbatim', '''
The lines of a fenced or indented code block come out character for character,
escaped only, less the indentation that belongs to the block; nothing in them
is taken as markup. A fence is closed by a line with a fence of the same kind,
at least as long, and by nothing else but the end of its container, and the
info string is found whatever it contains.''', [inputs], '''for every content,
fence length and indentation''', '''contents and lengths are unbounded; the examples
show about 45''', [B, H], [('CodeBlock.continue_ and finalize', B),
 ('BlockStarts.fenced_code_block, indented_code_block', B),
 ('code_block', H)])

prop('C10', 'Headings and thematic breaks', '''
One to six # before a space or the end of the line make a heading of that level
whose closing run of # is dropped; a paragraph underlined with = or - is
a heading of level 1 or 2; a line of three or more of the same of *, - and _
and nothing but white space is a thematic break. Other lines are none of
these, and the contents of a heading are those of the same text as a
paragraph.''', [inputs], '''for every content, level, run length, indentation and
neighbouring block''', '''lengths and contents are unbounded, and the rules compete
with each other and with lists''', [B], [('BlockStarts.atx_heading, '
 'setext_heading, thematic_break', B), ('Heading, ThematicBreak', B)])

prop('C11', 'HTML blocks start, end and stay as specified', '''
A line that fulfils one of the seven start conditions for HTML blocks starts
one, every other line does not, and a block of the seventh kind does not
interrupt a paragraph. From there to its end condition, or the end of its
container, the text comes out character for character.''', [inputs], '''for every
tag name, letter case, contents and context''', '''the examples show 8 of more than
60 names and few of the ends''', [B, C], [('reHtmlBlockOpen, reHtmlBlockClose', B),
 ('BlockStarts.html_block', B), ('HtmlBlock.continue_', B)])

prop('C12', 'Lists: numbers, tightness, separation, interruption', '''
Items with the same kind of marker next to each other are one list, a change of
the marker starts another, an ordered list starts with the number of its first
item, and a list interrupts a paragraph only if it is a bullet list or
starts with 1 and its first item is not empty. A list is loose if and only if
a blank line separates two of its items or two blocks directly within an
item.''', [inputs], '''for every marker, number, and arrangement of items,
children, indentation and blank lines''', '''tightness and separation depend on the
whole history of lines in nested items; the examples show about 70''', [B, H],
[('List.finalize', B), ('lists_match', B), ('ends_with_blank_line', B),
 ('parse_list_marker', B), ('list, item, paragraph', H)])

prop('C13', 'Paragraphs and line breaks', '''
Lines that start nothing else make paragraphs, which are separated by blank
lines and other blocks alone, with the white space around each line dropped.
A line ending within a paragraph is a hard break after two spaces or
a backslash and a soft break otherwise, and lines may continue a paragraph
within containers without their markers.''', [inputs], '''for every content of the
lines and all white space around them''', '''white space at the ends of lines, in
every inline context, has too many cases to sample''', [B, I],
[('Paragraph', B), ('parseNewline', I), ('add_line', B)])

prop('C14', 'Code spans', '''
A run of backquotes opens a code span if and only if a later run of the same
length in the same block closes it, and its content comes out verbatim, with
line endings as spaces and one space stripped on both sides where both are
there and the content is not all spaces. Code spans bind more tightly
than any inline construct but raw HTML and autolinks.''', [inputs], '''for every
content and every arrangement of runs of backquotes''', '''runs of all lengths and
other constructs overlap in unboundedly many ways''', [I, H],
[('parseBackticks', I), ('code', H)])

prop('C15', 'Backslash escapes', '''
A backslash before an ASCII punctuation character makes it literal wherever
text is interpreted: in texts, destinations, titles, labels and info strings;
before a line ending it makes a hard break; before anything else, and in
code, raw HTML and autolinks, it is a literal backslash.''', [inputs], '''for every
character after the backslash and every place it can stand in''', '''a claim about
every Unicode character in every construct''', [I, C],
[('parseBackslash', I), ('unescape_string', C), ('reEscapable', C + ',' + I)])

prop('C16', 'Entities and numeric character references', '''
Every HTML5 entity name with its semicolon, and every decimal reference of up
to 7 and hexadecimal one of up to 6 digits, stands for its character, as
content only and never as markup; invalid code points and zero give U+FFFD.
Everything else that begins with & is literal text.''', [inputs], '''for every
name, number and place''', '''2,125 names, 17 million numeric spellings, and all
strings that are neither''', [I, C, E], [('parseEntity', I),
 ('unescape_entity', C), ('_unescape', E), ('reEntity', I)])

prop('C17', 'Emphasis', '''
Runs of * and _ become emphasis and strong emphasis exactly as the CommonMark
rules on flanking, pairing, nesting and multiples of three say, with
Unicode white space and punctuation as neighbours, and the runs left over stay
literal.''', [inputs], '''for every arrangement of delimiter runs and every
neighbouring character''', '''the result of a run depends on all other runs before
and after it; the examples show about 130 arrangements''', [I],
[('scanDelims', I), ('processEmphasis', I), ('is_punctuation', I)])

prop('C18', 'Inline links and images', '''
[text](destination "title"), with its variants of spelling, is a link if it has
that form and its text has no link in it, and with ! an image; the
destination, title and text are what the source says. Anything else is literal,
with its contents still interpreted.''', [inputs], '''for every text,
destination, title, white space between them, and arrangement of brackets''',
'''brackets, parentheses, quotes and escapes interact in unboundedly many ways;
the examples show about 110''', [I], [('parseCloseBracket', I),
 ('parseLinkDestination', I), ('parseLinkTitle', I),
 ('addBracket, removeBracket', I)])

prop('C19', 'Reference definitions and reference links', '''
A definition at the begin of a paragraph is removed from it and makes every
full, collapsed and shortcut reference in the document with a matching label,
by case folding and white space collapsing, a link to its destination with
its title; of several, the first counts. Text that is no definition stays
in the paragraph, and references without a definition are literal.''', [inputs],
'''for every label, destination, title, order, context and near miss''', '''labels
match under Unicode case folding and depend on the whole document; the
examples show about 70''', [I, B, X], [('parseReference', I),
 ('Paragraph.finalize', B), ('normalize_reference', X),
 ('refmap lookup', I + ':parseCloseBracket')])

prop('C20', 'URLs in the output are valid and say what the text says', '''
The destination of a link, image or autolink in the output consists of
characters valid in URLs only, everything else being percent-encoded as UTF-8.
Decoding it gives the destination of the text, percent-encodings that are in
the text already stay as they are, and encoding twice changes nothing.''',
[inputs], 'for every destination', '''a claim about every Unicode character and every
sequence with a percent sign''', [C, I], [('normalize_uri', C),
 ('encode_unsafe', C)])

prop('C21', 'Autolinks and raw HTML in text', '''
<scheme:...> and <address@host> of the specified form are links whose text is
the URL itself; open and closing tags, comments, declarations, instructions
and CDATA sections of the specified form pass through character for
character. Everything else that begins with < is literal text.''', [inputs], '''for
every string between < and >''', '''the grammars of tags and addresses have
unboundedly many members and near misses; the examples show about 45''',
[I, C], [('parseAutolink', I), ('parseHtmlTag', I), ('reHtmlTag', C)])

prop('C22', 'The result depends on the text and the options alone', '''
Parsing and rendering a text gives the same result whatever was parsed or
rendered before: with the same parser or renderer, with new ones, or by the
convenience function. Nothing of one document (definitions, brackets, options,
output, or a rendering that failed half way) is ever seen in another, and options that a caller passes are not
changed.''', [inputs, hist, conf], '''for every pair of texts and every history of
uses of parsers and renderers''', '''every test makes new objects and parses one
text''', [B, I, H, R, S, M], [('state reset at the begin of parse', B +
 ':Parser.parse'), ('options copied', H), ('buffers reset in render', R)])

prop('C23', 'Rendering and dumping change nothing and omit nothing', '''
Rendering a document, or dumping it as JSON or as an outline, leaves the tree
as it was, so that doing it again, or in another order, gives the same. The
JSON dump and the outline have every node of the tree, in order, each with its
kind and with the literal, title, info string, destination and list data that
it holds.''', [inputs, hist, conf], '''for every document and
every order of renderings and dumps''', '''tests render once and dump two
documents''', [D, H, S, R, N], [('prepare', D), ('dumpAST', D),
 ('render walks without editing', R)])

prop('C24', 'Editing a tree keeps its links and does what it says', '''
Appending, prepending, unlinking and inserting a node before or after another
moves exactly that node, with everything below it, to exactly the place named,
and leaves the order of all others; parent, child and sibling links agree
with each other after every operation, also when the node comes from elsewhere
in the same tree.''', [prog, hist], '''for every forest and every operation and
sequence of operations that makes no cycle''', '''the tests edit three trees; the
cases differ by position, kinship and previous place of the node''', [N],
[('append_child, prepend_child, unlink, insert_after, insert_before', N)])

prop('C25', 'Walking a tree, and joining its texts', '''
Walking from a node visits everything below it exactly once in document order,
containers on entering and on leaving, leaves on entering, and ends; it can be
resumed at any point. Joining adjacent texts (normalize) changes
neither the concatenated text nor anything else, leaves no two adjacent texts,
and the walk goes on after edits behind or below the current node.''',
[inputs, prog], 'for every tree, every node to start at, every point to resume at',
'''the tests walk two trees''', [N], [('NodeWalker', N), ('Node.normalize', N),
 ('is_container', N)])

prop('C26', 'Source positions say where a block is', '''
Every block's source position lies within the text and begins and ends on the
lines and columns at which the block begins and ends: blocks lie within
their parents, siblings do not overlap and are in order, and the text of
a block by itself parses as the same block. The HTML attributes say the same
as the tree.''', [inputs, conf], '''for every text, nesting, indentation and
number of lines''', '''the suite has no test that looks at positions of more than
one document''', [B, H], [('add_child sets the begin', B),
 ('Parser.finalize sets the end', B), ('attrs', H)])

prop('C27', 'The reStructuredText of a document', '''
The reStructuredText renderer writes every text, code, link and image of the
document in order, with the reStructuredText markup for it: headings
underlined in full length, code blocks, quotes and the contents of list items
indented by their depth, list markers on the first lines, inline
markup around its contents, and empty lines between blocks.''',
[inputs, conf], '''for every document, nested to any depth, and every indent
character''', '''ten tests of one construct each; layout depends on nesting and
on what came before''', [S, R], [('ReStructuredTextRenderer', S),
 ('indent_lines', S)])

prop('C28', 'Smart punctuation changes quotes, dashes and dots only', '''
With the smart option straight quotes in texts become curly ones that open and
close as they flank words, two or more hyphens become en and em dashes whose
lengths add up (no run leaves a hyphen behind), and three dots an ellipsis.
Nothing else in the document changes: not code, raw HTML, URLs or escaped
characters, and nothing at all without the option.''', [inputs, conf], '''for every
text and every length of a run''', '''16 examples; runs have any length and stand
next to any character''', [I], [('smart_dashes', I), ('scanDelims, handleDelim', I),
 ('processEmphasis', I), ('reEllipses', I)])

prop('C29', 'The work grows at most with the square of the length', '''
Parsing and rendering takes a number of steps that grows at most with
the square of the length of the text, whatever parts are repeated to make the text
long: no text makes the parser take exponential or cubic time.''', [inputs], '''for
every text made by repeating some parts of it, among all constructs''', '''a dozen
pathological texts in a benchmark that is no test; every regular expression
and loop can be made to repeat by texts of its own''', [B, I, C, N, H],
[('regular expressions without ambiguous repetition', C + ',' + I),
 ('openers_bottom', I + ':processEmphasis'), ('brackets are a stack', I)])

prop('C30', 'Options change what they name; every way in agrees', '''
Each option changes only what it is for: source positions only add attributes,
safe mode only replaces raw HTML and URLs, the soft break option only soft
breaks, and combinations do what their parts do. The convenience function and the
command line give for every format and option what parser and renderer
give, and reject formats that do not exist.''', [inputs, conf], '''for every text, every
combination of options, every format and command line''', '''tests use options one
at a time on single texts; the command line has no test''', [H, M, L, B],
[('commonmark()', M), ('main()', L), ('options', H)])

NOTE = ('Every path of the real code through the templates is executed '
        'symbolically and every assertion decided for all texts within the '
        'bounds: %s. Outside: %s. Trusts the transformation of the source and '
        'the models of the built-in operations in sym/ (checked on every run '
        'by executing solver-chosen inputs natively)%s.')
REF = ' and the reference in ref/cm.py, written from the specification'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in PROPS:
        i = p['id']
        m = importlib.import_module(i.lower())
        with open(os.path.join(HERE, 'checks', i.lower() + '.py')) as f:
            src = f.read()
        ref = REF if 'T.ref' in src or '(diff' in src else ''
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py ' + i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'technique': 'symbolic execution of the real Python code over '
                         'texts with symbolic characters, path conditions '
                         'and assertions decided by Z3; counterexamples '
                         'replayed natively',
            'level': 'model_checking',
            'level_note': NOTE % (m.BOUNDS, m.OUTSIDE, ref)})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': []}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
