"""C14: include extraction sees exactly the quoted includes a compiler would."""
from hypothesis import strategies as st

from checks.models import loc
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C14'
RULE = ('Sources are assembled from lines whose meaning is known: quoted includes in many spellings, system '
        'includes, comments, string, character and raw string literals that contain include lines or '
        'quotes, look-alikes, code, line ends of both kinds, missing final newline. Each expected include is '
        'compared with its path, byte extent, line:column and surrounding line. Non-trivial: at least one include '
        'next to something that hides or resembles one.')
ASSUMPTIONS = ['Conditionals are not evaluated; no trigraphs, no line continuation within a directive, no raw string '
               'delimiters, no comment between # include and its file name (documented).']

PATHS = ['foo.h', 'a/b.h', '../x.h', './y.h', 'a.b/c.h', 'foo-1.2.h', 'x+y.hh', 'no_ext', 'a b.h', 'ä.h', 'a/../b.inc',
         'x.pb.h', "it's.h", 'a//b.h', '@x/y.h', 'UPPER.H', '1.h', 'a.tar.gz.h', 'include', '(x).h']
path = st.sampled_from(PATHS)
ws = st.sampled_from(['', ' ', '  ', '\t', ' \t '])
HIDDEN = '#include "hidden.h"'

# (text, is tricky). Each is one or more complete lines.
NOISE = [
    'int a = 1;', '', '   ', '#include <vector>', '#include <a/b.h> // "x"', '// ' + HIDDEN, '  // it\'s 5" long',
    '// "quoted', '/* ' + HIDDEN + ' */', '/*\n' + HIDDEN + '\n*/', '/**\n * "foo\n ' + HIDDEN + '\n' + HIDDEN + '\n **/',
    '/* it\'s " */', '/*/\n' + HIDDEN + '\n/*/', '// /*', '//' + HIDDEN + ' /*', 'x = "/*";', 'x = "*/";',
    'x = "//"; y = "//";', 'const char *u = "http://foo"; // "', "char c = '\"';", "char c = '\\\"';", "char c = '\\'';",
    'x = "\\"";', 'x = "\\\\";', 'x = "a\\"b" "c\\"";', 'x = "#include \\"hidden.h\\"";', 'f("' + "'" + '");',
    'x = R"(\n' + HIDDEN + '\n)";', 'x = R"(' + HIDDEN + ')";', 'x = R"(a"b)";', 'x = R"(\\)"; y = R"(//)";',
    'x = "a"\n    "b";', "int n = 1'000'000;", "int n = 1'000;", '#includes "hidden.h"', '#include_next "hidden.h"',
    '#define INC "hidden.h"', '#define include', 'x #include "hidden.h"', 'include "hidden.h"', '#include hidden.h',
    '#include', '# include MACRO', '#include ""', '#if 1', '#endif', '#pragma once', '#error can\'t', 'x / y; a /= b;',
    'x = "ä ü";', '// ä', '\f', 'x = a / *b;', '#import "hidden.h"', '#\ninclude "hidden.h"', '#include\n', '##',
    'string s = "";', 'operator""_x(1);', 'x = "\\n\\t";', 'return "x" "";',
]
PLAIN = {'int a = 1;', '', '   ', '#if 1', '#endif', '#pragma once'}


@st.composite
def include(draw):
  pre, mid, gap = draw(ws), draw(ws), draw(st.sampled_from([' ', ' ', '', '\t', '  ']))
  p = draw(path)
  tail = draw(st.sampled_from(['', '', ' ', ' // why', ' // "x', ' /* " */', '  // IWYU pragma: keep', '/* a\n b */',
                               ' // #include "y"']))
  head = '%s#%sinclude%s"' % (pre, mid, gap)
  return (head, p, '"' + tail)


@st.composite
def source(draw):
  items = draw(st.lists(st.one_of(include(), include(), st.sampled_from(NOISE)), max_size=12))
  return items, draw(st.sampled_from(['\n', '\n', '\r\n'])), draw(st.booleans())


def assemble(items, nl, final):
  text = b''
  want = []
  tricky = False
  for i, it in enumerate(items):
    if isinstance(it, str):
      tricky |= it not in PLAIN
      line = it
    else:
      line = ''.join(it)
      off = len(text) + len(it[0].encode())
      want.append((off, len(it[1].encode())))
    line = line.replace('\n', nl)
    text += line.encode()
    if final or i + 1 < len(items):
      text += nl.encode()
  return text, want, tricky


def run(ctx, case):
  text, want, tricky = assemble(*case)
  # "#include" right before a string literal on the next line is no include
  r = ctx.call('includes', text)
  got = [tuple(int(x) for x in e.split(b' ')[:2]) for e in r[::2]]
  if got != want:
    ctx.fail('includes of %r:\n  got      %s\n  expected %s' % (
        text, [text[o:o + n] for o, n in got], [text[o:o + n] for o, n in want]))
  for (o, n), e, around in zip(want, r[::2], r[1::2]):
    ctx.eq(e.split(b' ', 2)[2].decode(), 'src.cc:' + loc.show(text, o, n), 'location of %r in %r' % (text[o:o + n], text))
    ctx.eq(around, loc.line_of(text, o, n), 'line around %r' % text[o:o + n])
  if want and tricky:
    ctx.hit()


SUBS = [Sub('sources', source(), run, 24000, 600000)]


def prepare():
  return {'driver': build.driver()}
