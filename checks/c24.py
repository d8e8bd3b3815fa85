"""C24: range map and line index agree with naive search."""
from hypothesis import strategies as st

from checks.models import loc
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C24'
RULE = ('Sets of disjoint ranges (adjacent, single character, with gaps) inserted in '
        'any order and all sub-range queries of the buffer, against linear search; '
        'texts with any mixture of line ends and all kinds of sub-ranges, positions '
        'and printed forms against counting line breaks. Non-trivial: at least two '
        'ranges and one query that hits, or at least two lines.')
ASSUMPTIONS = ['Empty queries at the border of two ranges may go to either one.']


@st.composite
def ranges(draw):
  n = draw(st.integers(1, 60))
  cuts = sorted(draw(st.sets(st.integers(0, n), min_size=1, max_size=16)))
  rs = []
  for a, b in zip(cuts, cuts[1:]):
    if draw(st.integers(0, 3)):
      rs.append((a, b - a))
  order = draw(st.permutations(rs)) if len(rs) > 1 else rs
  return n, list(order)


def run_map(ctx, case):
  n, rs = case
  queries = [(o, l) for o in range(n) for l in range(1, n - o + 1)]
  queries += [(o, 0) for o in range(n + 1)]
  flat = [x for p in rs for x in p]
  out = ctx.call('rangemap', n, len(rs), *flat, *[x for q in queries for x in q])
  ctx.eq(out[0].decode(), '1' * len(rs), 'insertion of disjoint ranges')
  hits = 0
  for (o, l), got in zip(queries, out[1:]):
    want = [str(i) for i, (b, s) in enumerate(rs) if b <= o and o + l <= b + s]
    g = got.decode()
    if l == 0:
      border = any(o in (b, b + s) for b, s in rs)
      if border:
        if g != '-' and g not in want:
          ctx.fail('query (%d,%d) in %s: %s' % (o, l, case, g))
        continue
    hits += bool(want)
    if g != (want[0] if want else '-'):
      ctx.fail('query (%d,%d) in %s: got %s expected %s' % (o, l, case, g, want))
  if len(rs) > 1 and hits:
    ctx.hit()


text = st.lists(st.sampled_from([b'a', b'bc ', b'\n', b'\n\n', b'\r\n', b'\r', b'\xc3\xa4', b'\x00',
                                 b'\t', b'\f', b'\v', b'\xc2\x85', b'\xe2\x80\xa8', b'# x', b'"""\n"""']), max_size=16).map(b''.join)


@st.composite
def linecase(draw):
  c = draw(text)
  qs = []
  for _ in range(draw(st.integers(1, 8))):
    a = draw(st.integers(0, len(c)))
    b = draw(st.integers(0, len(c)))
    qs.append((min(a, b), abs(a - b)))
  return c, qs


def run_lines(ctx, case):
  c, qs = case
  out = ctx.call('linemap', c, *[x for q in qs for x in q])
  ctx.eq(int(out[0]), c.count(b'\n') + 1, 'lines of %r' % c)
  for (o, l), a, line in zip(qs, out[1::2], out[2::2]):
    sl, sc = loc.pos(c, o)
    el, ec = loc.pos(c, o + l)
    want = '%d %d %d %d n.txt n.txt:%s' % (sl, sc, el, ec, loc.show(c, o, l))
    ctx.eq(a.decode(), want, 'position of [%d,+%d) in %r' % (o, l, c))
    ctx.eq(line, loc.line_of(c, o, l), 'surrounding line of [%d,+%d) in %r' % (o, l, c))
  if c.count(b'\n') > 1:
    ctx.hit()
  if any(loc.pos(c, o)[0] != loc.pos(c, o + l)[0] for o, l in qs):
    ctx.label('range over lines')


def all_small():
  import itertools
  for n in range(0, 6):
    for t in itertools.product(b'a\n\r', repeat=n):
      c = bytes(t)
      yield c, [(o, l) for o in range(n + 1) for l in range(n - o + 1)]


SUBS = [
    Sub('rangemap', ranges(), run_map, 6000, 100000),
    Sub('lines', linecase(), run_lines, 20000, 300000),
    Sub('lines_small', None, run_lines, 0, 0, exhaustive=all_small),
]


def prepare():
  return {'driver': build.driver()}
