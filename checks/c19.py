"""C19: every output format carries the same rows, correctly encoded."""
import csv
import io
import json

from hypothesis import strategies as st

from vlib import build
from vlib.harness import Sub

PROPERTY = 'C19'
RULE = ('Tables with 1 to 4 columns of strings over quotes, separators, brackets, control characters, escapes, '
        'UTF-8 and arbitrary bytes; rows and rows with a repeated last column (also with none). Each format is '
        'read back by an independent reader (Python csv and json, a Lisp reader written for the check, column '
        'slicing) and has to give the original cells. Non-trivial: a cell needs quoting or escaping in some format.')
ASSUMPTIONS = ['JSON is checked for cells that are UTF-8; the plain table aligns by bytes and its cells have no line breaks.',
               'Rows whose repeated column is empty carry no value: plain and CSV leave them out.']

frag = st.sampled_from(['"', "'", '\\', ',', ';', ' ', '\n', '\r', '\t', '(', ')', '[', ']', '{', '}', ':', 'a', 'b', 'foo',
                        '//x:y', '\\n', '""', '\\"', '\x00', '\x01', '\x1f', '\x7f', 'ä', '€', '😀', '\u2028', '%s', '0', '7',
                        'u0041', '\b', '\f', '\x1b[1m', '#', 'nil', '&', '<'])
text = st.lists(frag, max_size=6).map(''.join)
plain_text = st.one_of(text, text, st.sampled_from(['x', '', 'a/b.h', '//foo:bar', 'longer-cell-with-more-text']))
rawbytes = st.lists(st.one_of(frag.map(str.encode), st.binary(min_size=1, max_size=2)), max_size=5).map(b''.join)
header = st.sampled_from(['header', 'providing-rule', 'a', 'b', 'c', 'd', 'file-loc'])


@st.composite
def table(draw, cell, wild_headers=False):
  n = draw(st.integers(1, 4))
  hs = draw(st.lists(st.one_of(header, text) if wild_headers else header, min_size=n, max_size=n, unique=True))
  rows = []
  for _ in range(draw(st.integers(0, 5))):
    if draw(st.booleans()) and n > 1:
      rows.append(('L', [draw(cell) for _ in range(n - 1)], draw(st.lists(cell, max_size=3))))
    else:
      rows.append(('R', [draw(cell) for _ in range(n)]))
  return hs, rows


def call(ctx, fmt, hs, rows):
  a = [fmt, str(len(hs))] + hs
  for r in rows:
    a.append(r[0])
    a += r[1]
    if r[0] == 'L':
      a += [str(len(r[2]))] + r[2]
  return ctx.call('table', *a)[0]


def flat(rows):
  out = []
  for r in rows:
    out += [r[1]] if r[0] == 'R' else [r[1] + [x] for x in r[2]]
  return out


def b(x):
  return x if isinstance(x, bytes) else x.encode()


def note(ctx, rows):
  for r in flat(rows):
    for c in r:
      if any(x in b(c) for x in b'"\',\\\n\r\t(') or any(x < 32 or x > 126 for x in b(c)):
        ctx.hit()


def run_json(ctx, case):
  hs, rows = case
  out = call(ctx, 'json', hs, rows)
  lines = out.split(b'\n')
  ctx.eq(lines[-1], b'', 'end of JSON output')
  ctx.eq(len(lines) - 1, len(rows), 'number of JSON lines of %r' % (out,))
  for l, r in zip(lines, rows):
    try:
      got = json.loads(l.decode(), object_pairs_hook=list)
    except ValueError as e:
      ctx.fail('not JSON (%s): %r' % (e, l))
    want = list(r[1]) + ([list(r[2])] if r[0] == 'L' else [])
    ctx.eq([tuple(x) for x in got], list(zip(hs, want)), 'JSON row')
  note(ctx, rows)


def run_csv(ctx, case):
  hs, rows = case
  out = call(ctx, 'csv', hs, rows)
  got = list(csv.reader(io.StringIO(out.decode('latin-1'), newline=''), strict=True))
  want = [[b(c).decode('latin-1') for c in r] for r in [hs] + flat(rows)]
  ctx.eq(got, want, 'CSV %r' % out)
  note(ctx, rows)


class Reader:
  """Reads lists, symbols and strings as Lisp does."""

  def __init__(self, s):
    self.s, self.i = s, 0

  def ws(self):
    while self.i < len(self.s) and self.s[self.i] in b' \n\t\r':
      self.i += 1

  def read(self):
    self.ws()
    c = self.s[self.i:self.i + 1]
    if c == b'(':
      self.i += 1
      out = []
      while True:
        self.ws()
        if self.s[self.i:self.i + 1] == b')':
          self.i += 1
          return out
        out.append(self.read())
    if c == b'"':
      return self.string()
    j = self.i
    while j < len(self.s) and self.s[j] not in b' \n\t\r()"':
      j += 1
    if j == self.i:
      raise ValueError('at %d' % self.i)
    sym = self.s[self.i:j]
    self.i = j
    return ('sym', sym)

  def string(self):
    self.i += 1
    out = bytearray()
    esc = {b'n': 10, b'r': 13, b't': 9, b'a': 7, b'b': 8, b'v': 11, b'f': 12, b'e': 27}
    while True:
      c = self.s[self.i:self.i + 1]
      if not c:
        raise ValueError('unterminated string')
      self.i += 1
      if c == b'"':
        return bytes(out)
      if c == b'\n':
        raise ValueError('line break in string')
      if c != b'\\':
        out += c
        continue
      c = self.s[self.i:self.i + 1]
      self.i += 1
      if c.isdigit():
        j = self.i
        while j < len(self.s) and j < self.i + 2 and self.s[j] in b'01234567':
          j += 1
        out.append(int(self.s[self.i - 1:j], 8))
        self.i = j
      elif c in esc:
        out.append(esc[c])
      else:
        out += c


def run_lisp(ctx, case, fmt):
  hs, rows = case
  out = call(ctx, fmt, hs, rows)
  rd = Reader(out)
  try:
    got = rd.read()
  except (ValueError, IndexError) as e:
    ctx.fail('not a list (%s): %r' % (e, out))
  rd.ws()
  ctx.eq(rd.i, len(out), 'end of list %r' % out)
  want = []
  for r in rows:
    vals = [b(c) for c in r[1]] + ([[b(c) for c in r[2]]] if r[0] == 'L' else [])
    if fmt == 'plist':
      want.append([x for h, v in zip(hs, vals) for x in (('sym', b(':' + h)), v)])
    else:
      want.append(vals)
  ctx.eq(got, want, '%s %r' % (fmt, out))
  note(ctx, rows)


def no_break(rows):
  tr = lambda c: b(c).replace(b'\n', b'~')
  return [(r[0], [tr(c) for c in r[1]]) + ((([tr(c) for c in r[2]]),) if r[0] == 'L' else ()) for r in rows]


def run_plain(ctx, case):
  hs, rows = case[0], no_break(case[1])
  out = call(ctx, 'native', hs, rows)
  want = flat(rows)
  lines = out.split(b'\n')
  ctx.eq((len(lines) - 1, lines[-1]), (len(want), b''), 'lines of %r' % out)
  n = len(hs)
  width = [max([len(r[i]) for r in want], default=0) for i in range(n)]
  for l, r in zip(lines, want):
    p = 0
    for i in range(n):
      cell = l[p:p + len(r[i])]
      ctx.eq(cell, r[i], 'column %d of %r in %r' % (i, l, out))
      p += len(r[i])
      if i + 1 < n:  # filled up with blanks to where the next column starts
        nxt = p - len(r[i]) + width[i] + 1
        ctx.eq(l[p:nxt], b' ' * (nxt - p), 'after column %d of %r' % (i, l))
        p = nxt
    ctx.eq(l[p:].strip(b' '), b'', 'end of %r' % l)
  if len({len(r[0]) for r in want}) > 1 and n > 1:
    ctx.hit()


SUBS = [
    Sub('json', table(plain_text, True), run_json, 6000, 150000),
    Sub('csv', table(st.one_of(plain_text, rawbytes)), run_csv, 6000, 150000),
    Sub('s-expr', table(st.one_of(plain_text, rawbytes)), lambda ctx, c: run_lisp(ctx, c, 's-expr'), 6000, 150000),
    Sub('plist', table(st.one_of(plain_text, rawbytes)), lambda ctx, c: run_lisp(ctx, c, 'plist'), 6000, 150000),
    Sub('plain', table(st.one_of(plain_text, rawbytes)), run_plain, 6000, 150000),
]


def prepare():
  return {'driver': build.driver()}
