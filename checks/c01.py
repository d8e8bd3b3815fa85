"""C01: tokens are a faithful cover of the source text."""
from hypothesis import strategies as st

from checks.models import lexer
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C01'
RULE = ('File contents assembled from lexical fragments (identifiers that touch '
        'keywords, numbers, all quoting styles with escapes and stray quotes, '
        'operators, comments, continuations, every kind of white space, raw '
        'bytes) glued with and without separators, tokenized with Next() and '
        'with Peek()+Next(), compared token by token with an independent '
        'regular-expression lexer. Non-trivial: at least three tokens of at '
        'least two kinds.')
ASSUMPTIONS = ['The reference lexer states the documented subset: no exponent '
               'floats, a lone "!" counts as "not", strings may span lines.']

words = st.sampled_from([
    b'not', b'in', b'for', b'and', b'or', b'if', b'else', b'notin', b'not_in',
    b'inner', b'int', b'int8', b'innot', b'nota', b'_', b'a', b'A9', b'r', b'R', b'rr',
    b'forx', b'xfor', b'else1', b'o', b'name', b'glob', b'nott', b'i', b'n',
    b'no', b'fo', b'an', b'el', b'IN', b'Not', b'not1', b'and_', b'ifif'])
idents = st.text('abrRxiont_0129', min_size=1, max_size=6).map(str.encode)
numbers = st.one_of(
    st.sampled_from([b'0', b'42', b'0x', b'0xff', b'0xFg', b'0o17', b'0o', b'1.5',
                     b'1.', b'1.2.3', b'..', b'.5', b'0x1.2', b'007', b'1e5', b'0b1', b'9a']),
    st.integers(0, 10**12).map(lambda i: b'%d' % i),
    st.text('0123x.oaf', min_size=1, max_size=6).map(lambda s: b'1' + s.encode()))
ops = st.sampled_from([bytes([c]) for c in lexer.ONE] + list(lexer.TWO) +
                      [b'===', b'<>', b'!==', b'<==', b'=!', b'//', b'**', b'->', b'...'])
bad = st.sampled_from([b'$', b'@', b'?', b';', b'~', b'^', b'&', b'`', b'\x00',
                       b'\xc3\xa4', b'\xff', b'\x80', b'\x01', b'\x7f'])
blank = st.sampled_from([b' ', b'  ', b'\t', b'\n', b'\r\n', b'\r', b'\v', b'\f', b'\n\n',
                         b'\\\n', b'\\', b'# c\n', b'#\n', b'#"\n', b"#'''\n",
                         b'# no end', b'\n  ', b' \n#x\n\n', b'#\\\n'])
body = st.lists(st.sampled_from([
    b'a', b'"', b"'", b'\\', b'\\\\', b'\\"', b"\\'", b'\n', b'""', b"''", b'#',
    b'\\\n', b'not in', b'\xc3\xa4', b'\\n', b' ', b'x"y', b'"""', b"'''", b'%s']),
    max_size=6).map(b''.join)


@st.composite
def strings(draw):
  q = draw(st.sampled_from([b'"', b"'", b'"""', b"'''"]))
  b = draw(body)
  return (draw(st.sampled_from([b'', b'', b'r', b'R', b'rr'])) + q + b +
          draw(st.sampled_from([q, q, q, q, q[:1], b'', q + q[:1]])))


sep = st.sampled_from([b'', b'', b'', b' ', b'\n', b'\t', b'#\n'])
fragment = st.one_of(words, words, idents, numbers, ops, ops, strings(), strings(),
                     blank, blank, bad)


@st.composite
def contents(draw):
  n = draw(st.integers(1, 14))
  out = []
  for _ in range(n):
    out.append(draw(fragment))
    out.append(draw(sep))
  return b''.join(out)


def compare(ctx, c, peek):
  got = ctx.call('scan', c, '1' if peek else '0')
  if got in ([b'PEEK-DIFFERS'], [b'NO-PROGRESS']):
    ctx.fail('%s on %r' % (got[0].decode(), c))
  want = lexer.lex(c)
  lines = int(got.pop())
  toks = []
  for g in got:
    f = g.decode('latin-1').rsplit(' ', 4)
    toks.append((f[0], int(f[1]), int(f[2]), f[3] == '1', f[4]))
  a = [t[:3] for t in toks]
  b = [(('!',) + t[1:3]) if t[0] == 'not' else t[:3] for t in want]
  if a != b:
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    ctx.fail('token %d of %r: got %s, expected %s' % (i, c, a[i:i + 2], b[i:i + 2]))
  for t, w in zip(toks, want):
    text = c[t[1]:t[1] + t[2]]
    if t[0] == '<<EOF>>' or b'\n' in text:
      continue  # flag not specified for end of file and multi-line tokens
    if t[3] != w[3]:
      ctx.fail('token %r at %d of %r: first-on-line is %s' % (text, t[1], c, t[3]))
  ctx.eq(lines, c.count(b'\n') + 1, 'number of lines seen in %r' % c)
  return want


def run_tokens(ctx, case):
  c, peek = case
  toks = compare(ctx, c, peek)
  kinds = {t[0] for t in toks}
  if len(toks) > 3 and len(kinds) > 2:
    ctx.hit()
  for k in kinds:
    ctx.label(k)


def run_bytes(ctx, case):
  toks = compare(ctx, case, False)
  if len(toks) > 3:
    ctx.hit()


def run_cut(ctx, case):
  """Every prefix of a file is tokenized consistently too (file ends)."""
  for i in range(len(case) + 1):
    compare(ctx, case[:i], i % 2 == 0)
  if len(case) > 4:
    ctx.hit()


def short_all():
  """All strings up to length 4 over a small critical alphabet."""
  import itertools
  al = [b'"', b"'", b'\\', b'r', b'n', b'\n', b'#', b' ', b'=', b'!', b'0', b'x', b'.']
  for n in range(1, 4):
    for t in itertools.product(al, repeat=n):
      yield b''.join(t)
  al = [b'"', b"'", b'\\', b'r', b'\n', b'#', b'=']
  for n in (4, 5):
    for t in itertools.product(al, repeat=n):
      yield b''.join(t)
  for w in itertools.product([b'not', b'NOT', b'n'], [b' ', b'\n', b'', b'  ', b'\t\n ', b'#x\n'],
                             [b'in', b'inner', b'i', b'in_', b'in9', b'in(', b'in"a"', b'in#', b'in'],
                             [b'', b' ', b'\n', b' x']):
    yield b''.join(w)



SUBS = [
    Sub('fragments', st.tuples(contents(), st.booleans()), run_tokens, 40000, 1200000),
    Sub('prefixes', contents(), run_cut, 1600, 60000),
    Sub('bytes', st.binary(max_size=40), run_bytes, 8000, 200000),
    Sub('short', None, run_bytes, 0, 0, exhaustive=short_all),
]


def prepare():
  return {'driver': build.driver()}
