"""C04: reported locations delimit exactly the text they are about."""
import json
import os
import re

from hypothesis import strategies as st

from checks import c01
from checks.models import lexer, loc, prog
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C04'
RULE = ('Generated programs in arbitrary layout (CRLF, blank and continuation lines, '
        'comments, strings over several lines, no final newline): location of every '
        'token, of every string, number and name of the syntax tree, of the first parse '
        'error after inserting an illegal character at a known place, and of every target '
        'listed and printed on the command line (the place of a computed name is inside of its expression), compared with positions counted in the '
        'raw bytes. Non-trivial: at least two lines.')
ASSUMPTIONS = ['Columns count bytes. An exclusive end at the start of a line is shown '
               'as column 0.']


def run_tokens(ctx, c):
  got = ctx.call('scan', c, '0')[:-1]
  for g in got:
    f = g.decode('latin-1').rsplit(' ', 4)
    o, n = int(f[1]), int(f[2])
    ctx.eq(f[4], 'f:' + loc.show(c, o, n), 'location of %r in %r' % (c[o:o + n], c))
  if c.count(b'\n') > 1 and len(got) > 3:
    ctx.hit()


def leaves(t):
  if isinstance(t, list):
    if t and t[0] in ('str', 'int', 'id'):
      yield t
    else:
      for x in t:
        yield from leaves(x)


def tidy(text, crlf):
  return text.replace('\r\n', '\n').replace('\n', '\r\n') if crlf else text


def run_tree(ctx, case):
  text, crlf = case
  c = tidy(text, crlf).encode('utf-8')
  r = ctx.call('parse', c)
  if r[0] != b'0':
    return  # grammar is another property
  last = -1
  n = 0
  for leaf in leaves(json.loads(r[2].decode('latin-1'))):
    txt, off, where = leaf[1].encode('latin-1'), leaf[-2], leaf[-1]
    n += 1
    if c[off:off + len(txt)] != txt or off < 0:
      ctx.fail('%s %r does not come from offset %d of %r' % (leaf[0], txt, off, c))
    if where is not None:
      ctx.eq(where, 'BUILD:' + loc.show(c, off, len(txt)), 'location of %r in %r' % (txt, c))
  if c.count(b'\n') > 1 and n > 3:
    ctx.hit(*(['crlf'] if crlf else []))


@st.composite
def broken(draw):
  text = draw(prog.program(prog.simple_expr))[0].encode('utf-8')
  toks = [t for t in lexer.lex(text)]
  i = draw(st.integers(0, len(toks) - 1))
  return text, toks[i][1], draw(st.sampled_from([b'$', b'@', b'?', b'\x00', b'\xff']))


def run_error(ctx, case):
  text, off, bad = case
  # 'off' starts a token (or is the end), so the character is a token itself
  if off > 0 and text[off - 1:off] not in (b' ', b'\n', b'(', b')', b'[', b']', b',', b'\t', b':', b'='):
    text = text[:off] + b' ' + text[off:]
    off += 1
  c = text[:off] + bad + b' ' + text[off:]
  if not any(t[1] == off and t[2] == 1 for t in lexer.lex(c)):
    return  # in a comment
  r = ctx.call('parse', c)
  if r[0] != b'1':
    ctx.fail('illegal character at %d accepted in %r' % (off, c))
  msg = r[1].decode('latin-1')
  m = re.match(r'BUILD:([0-9:-]+:) ', msg)
  want = loc.show(c, off, 1)
  if not m or m.group(1) != want:
    ctx.fail('first error is %r, should be at %s (%r at %d)\n%r' % (msg, want, bad, off, c))
  if c.count(b'\n') > 1:
    ctx.hit()


# Files with rules, listed and printed on the command line.
@st.composite
def rules(draw):
  """Chunks, and the rules in there."""
  parts, names = [], []
  for i in range(draw(st.integers(1, 4))):
    parts.append(draw(st.sampled_from(['', '\n', '# c\n', '\n\n# "x\n', '"""doc\nx"""\n', 'X = [\n"a",\n\n]\n',
                                       "Y = '''\n\n'''\n", 'Z = 1 not\n in a\n', ' \\\n', '\t\n  ',
                                       'A = "\\\nq"\n', 'load("x", "y")\n', '# \f \v\x85\u2028 c\n', 'B = "\f\v\x85\u2028"\n', 'C = ["\u2029\x1c\x1d", "\x00"]\n'])))
    kind = draw(st.sampled_from(['cc_library', 'cc_test', 'genrule', 'my_rule']))
    name = 't%d' % i
    inner = draw(st.sampled_from([
        '\n  name = "@",\n', 'name="@"', '\n\n  srcs = ["a.cc"],\n  name = "@",', '# c\n name = \n "@"',
        'name = "@", deps = [\n":x"\n]', ' name = "@", data = """\n\n""",\n x = 1', 'name = "@",\\\n']))
    parts.append(kind + '(' + inner.replace('@', name) + ')')
    names.append((kind, name))
    parts.append(draw(st.sampled_from(['\n', '\n\n', ' # e\n', '\n'])))
  text = ''.join(parts)
  if draw(st.booleans()):
    text = text.rstrip('\n')
  return tidy(text, draw(st.integers(0, 4)) == 0), names


def run_listing(ctx, case):
  text, names = case
  c = text.encode()
  d = ctx.scratch()
  with open(d + '/BUILD', 'wb') as f:
    f.write(c)
  open(d + '/WORKSPACE', 'w').close()
  r = ctx.call('cli', d, '--', 'list-targets', '//:all')
  rows = r[1].decode().splitlines()
  ctx.eq(len(rows), len(names), 'listed targets of %r: %s' % (c, rows))
  for row, (kind, name) in zip(rows, names):
    where = row.split()[0]
    o = c.index(b'"' + name.encode() + b'"')
    ctx.eq(os.path.normpath(where), 'BUILD:' + loc.show(c, o + 1, len(name)),
           'location of %s in %r' % (name, c))
  for kind, name in names:
    r = ctx.call('cli', d, '--', 'print', '//:' + name)
    o = c.index(b'"' + name.encode() + b'"')
    rule = c.rindex(kind.encode() + b'(', 0, o)
    head = r[1].decode().splitlines()[0]
    want = 'BUILD:' + loc.show(c, rule, len(kind))
    if want not in head:
      ctx.fail('print //:%s shows %r, rule is at %s' % (name, head, want))
  if c.count(b'\n') > 2 and len(names) > 1:
    ctx.hit()


# Names that are computed.
@st.composite
def computed(draw):
  """Text and [(name, first offset, last offset)] of what the name is written as."""
  t, out, variables = '', [], {}
  gap = st.sampled_from(['', ' ', ' ', '\n', '\n\n  ', '\t', ' \\\n', '  # "x" +\n '])

  def expression():
    n = draw(st.integers(1, 4))
    text, value = '', ''
    for i in range(n):
      v = draw(st.sampled_from(sorted(variables))) if variables and draw(st.integers(0, 2)) == 0 else None
      lit = draw(st.sampled_from(['a', 'b-', 'lib', 'ä', 'x_']))
      text += (draw(gap) + '+' + draw(gap) if i else '') + (v or draw(st.sampled_from(['"%s"', '"%s"', "'%s'", '"""%s"""', 'r"%s"'])) % lit)
      value += variables[v][0] if v else lit
    return text, value, n == 1 and v

  def size(x):
    return len(x.encode())

  for i in range(draw(st.integers(1, 5))):
    e, value, v = expression()
    t += draw(st.sampled_from(['', '\n', '# ä "c" + "d"\n', '"doc" \n']))
    before = 'V%d = (' % i if draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(['cc_library(name = ', 'cc_test(\n  deps = [":a" + "b"],\n  name = ']))
    pos = variables[v][1:] if v else (size(t + before), size(t + before + e))
    if before[0] == 'V':
      variables['V%d' % i] = value, *pos
    else:
      out.append((value, *pos))
    t += before + e + draw(gap) + draw(st.sampled_from([')\n', ',)\n'] if before[0] != 'V' else [')\n']))
  return t, out


def run_computed(ctx, case):
  text, names = case
  c = text.encode()
  d = ctx.scratch()
  with open(d + '/BUILD', 'wb') as f:
    f.write(c)
  open(d + '/WORKSPACE', 'w').close()
  r = ctx.call('cli', d, 'e', '--', 'list-targets', '//:all')
  ctx.eq(r[0], b'0', 'status %r of %r' % (r[1:], c))
  rows = [x.split(None, 2) for x in r[1].decode().splitlines()]
  ctx.eq([x[2] for x in rows], ['//:' + n for n, _, _ in names], 'targets of %r, messages %r' % (c, r[2:]))
  starts = [0] + [i + 1 for i, x in enumerate(c) if x == 10]
  for (where, _, _), (n, a, b) in zip(rows, names):
    m = re.match(r'(?:\./)?BUILD:(\d+):(\d+)(?:-(\d+)|:(\d+):(\d+))?:$', where)
    if not m:
      ctx.fail('location %r of %s in %r' % (where, n, c))
    line, col, same, toline, tocol = (x and int(x) for x in m.groups())
    first = starts[line - 1] + col - 1
    last = starts[toline - 1] + tocol if toline else starts[line - 1] + (same or col)
    if not a <= first < last <= b:
      ctx.fail('%s of %s is not inside of %r in %r' % (where, n, c[a:b], c))
  if len(names) > 1 and len(starts) > 2:
    ctx.hit()


SUBS = [
    Sub('tokens', c01.contents(), run_tokens, 8000, 200000),
    Sub('tree', st.tuples(prog.program(prog.simple_expr).map(lambda p: p[0]), st.booleans()),
        run_tree, 6000, 150000),
    Sub('errors', broken(), run_error, 6000, 150000),
    Sub('listing', rules(), run_listing, 2400, 60000),
    Sub('computed', computed(), run_computed, 2400, 60000),
]


def prepare():
  return {'driver': build.driver()}
