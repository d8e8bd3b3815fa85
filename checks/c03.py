"""C03: parse builds what the text says; printing parses back the same."""
import ast
import json
import os
import warnings

from hypothesis import strategies as st

from checks.models import prog
from vlib import build
from vlib.harness import Sub, Violation

PROPERTY = 'C03'
RULE = ('Valid programs are generated together with the tree they mean (all '
        'statement kinds, all operators, calls, keyword arguments, lists, maps, '
        'tuples, comprehensions, ternaries, indexing, slices, all quoting styles, '
        'arbitrary layout and comments); the parsed tree must equal the meant one '
        'and every printed statement must parse back into the same tree with the '
        'same string contents. Non-trivial: a compound expression is present, '
        'or a string with quotes or escapes. Concatenated literals are printed after evaluation.')
ASSUMPTIONS = ['Operators without parentheses group to the right and have no '
               'precedence (documented simplification of the parser).']


def parse(ctx, text):
  r = ctx.call('parse', text)
  err = r[0] == b'1' or r[1] != b''
  return err, r[1].decode('utf-8', 'replace'), prog.strip_pos(json.loads(r[2].decode('latin-1'))), r[3:]


def nodes(t):
  if isinstance(t, list):
    if t and isinstance(t[0], str):
      yield t[0] + (':' + t[1] if t[0] in ('bin', 'un') else '')
    for x in t:
      yield from nodes(x)


def norm(t):
  """For comparing a reprint: string content matters, quoting style does not."""
  if isinstance(t, list):
    if t and t[0] == 'str':  # A raw string may have become a regular one.
      return ['str', unquoted(t[1].replace('\\', '\\\\') if t[2] else t[1])]
    return [norm(x) for x in t]
  return t


def loses_parens(t):
  """A left operand (or ternary positive) is itself an operator expression,
  which can only be written with parentheses."""
  if not isinstance(t, list) or not t:
    return False
  def op(x):
    return (isinstance(x, list) and x and
            (x[0] in ('un', 'if') or (x[0] == 'bin' and x[1] != '[')))
  if t[0] == 'bin' and t[1] not in (':', 'for') and op(t[2]):
    return True
  if t[0] == 'if' and op(t[2]):
    return True
  return any(loses_parens(x) for x in t)


def unquoted(s):
  """Content with needless escapes of quotes removed."""
  out, i = [], 0
  while i < len(s):
    if s[i] == '\\' and i + 1 < len(s):
      if s[i + 1] in '"\'':
        out.append(s[i + 1])
      else:
        out.append(s[i:i + 2])
      i += 2
    else:
      out.append(s[i])
      i += 1
  return ''.join(out)


def check_reprint(ctx, text, tree, printed):
  joined = b'\n"-"\n'.join(printed)
  err2, msg2, tree2, printed2 = parse(ctx, joined)
  if err2:
    ctx.fail('printed form of %r does not parse: %s\n%s' % (
        text, msg2, joined.decode('utf-8', 'replace')))
  if norm(tree2) != norm(tree):
    ctx.fail('printed form of %r means something else:\n%s\n  got      %s\n  expected %s' % (
        text, joined.decode('utf-8', 'replace'), norm(tree2), norm(tree)))
  if printed2 != printed:
    ctx.fail('printing again differs: %r vs %r' % (printed2, printed))


class Fold(ast.NodeTransformer):
  def visit_BinOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Add) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
      return ast.Constant(n.left.value + n.right.value)
    return n


def read_by_python(text, fold):
  """As another reader understands it (sorted strings, what loops assign to, everything), None if it does not."""
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
      t = ast.parse(text)
    except (SyntaxError, ValueError):
      return None
  t.body = [s for s in t.body if not isinstance(s, ast.Expr) or not isinstance(s.value, ast.Constant)]
  if fold:
    t = Fold().visit(t)
  # Sorted, as operators might be grouped in a different way.
  return [sorted(n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str)),
          sorted(ast.dump(x) for n in ast.walk(t) if isinstance(n, (ast.comprehension, ast.Assign))
                 for x in (n.targets if isinstance(n, ast.Assign) else [n.target])),
          ast.dump(t)]


def check_python(ctx, text, printed, operators, fold=False):
  want = read_by_python(text, fold)
  if want is None:
    return
  p = b'\n'.join(printed).decode('utf-8')
  got = read_by_python(p, fold)
  if operators:  # Not everything needs to be grouped as there.
    ctx.label('python')
    if got is None:
      return
    ctx.eq(got[0], want[0], 'strings in the printed form %s of %r as Python reads them' % (p, text))
    ctx.eq(got[1], want[1], 'variables assigned in the printed form %s of %r as Python reads it' % (p, text))
  else:
    ctx.label('python, all')
    ctx.eq(got, want, 'printed form %s of %r as Python reads it' % (p, text))


def run(ctx, case):
  text, trees = case
  err, msg, tree, printed = parse(ctx, text)
  if err:
    ctx.fail('valid program is rejected: %s\n%s' % (msg, text))
  want = prog.utf8(['list', '['] + trees)
  if tree != want:
    ctx.fail('structure of %r:\n  got      %s\n  expected %s' % (text, tree, want))
  if loses_parens(tree):  # the structure is checked, the print is a listed finding
    ctx.label('print not checked (known finding)')
    try:
      check_reprint(ctx, text, tree, printed)
    except Violation as e:
      ctx.fail(str(e), key='print-drops-parentheses')
  else:
    check_reprint(ctx, text, tree, printed)
    check_python(ctx, text, printed, any(k.startswith(('bin', 'un', 'if')) for k in nodes(want)))
  kinds = set(nodes(want))
  if len(kinds) > 4:
    ctx.hit()
  for k in kinds:
    ctx.label(k)


def run_string(ctx, case):
  run(ctx, case)
  if '\\' in case[0] or any(q in case[0][5:-1] for q in '"\''):
    ctx.hit()


def one_statement(e):
  return st.tuples(st.just('x = '), e).map(
      lambda p: (p[0] + p[1][0], [['assign', ['id', 'x'], p[1][1]]]))


@st.composite
def concatenation(draw):
  """Statement with concatenated literals."""
  lits = [draw(prog.string_lit())[0] for _ in range(draw(st.integers(2, 4)))]
  return draw(st.sampled_from(['x = %s', 'f(%s)', 'x = [%s]', 'f(name = %s)', 'x = {"a": %s}'])) % ' + '.join(lits) + '\n'


def run_concatenation(ctx, text):
  top = ctx.scratch()
  with open(os.path.join(top, 'BUILD'), 'w', encoding='utf-8', newline='') as f:
    f.write(text)
  open(os.path.join(top, 'MODULE.bazel'), 'w').close()
  r = ctx.call('elaborate', top, 'BUILD', '', '')
  ctx.eq(r[0], b'0', 'parse error %r of\n%s' % (r[1:2], text))
  check_reprint(ctx, text, prog.strip_pos(json.loads(r[2].decode('latin-1'))), r[3:])
  check_python(ctx, text, r[3:], False, True)
  if ' + ' not in r[3].decode('utf-8', 'replace'):
    ctx.hit()


SUBS = [
    Sub('programs', prog.program(), run, 4000, 120000),
    Sub('expressions', one_statement(prog.expr), run, 8000, 240000),
    Sub('strings', one_statement(prog.string_lit()), run_string, 6000, 100000),
    Sub('concatenated', concatenation(), run_concatenation, 3000, 60000),
]


def prepare():
  return {'driver': build.driver()}
