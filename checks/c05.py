"""C05: evaluating BUILD expressions preserves their Starlark value."""
import ast
import json
import os
import warnings

from hypothesis import strategies as st

from checks.c08 import want as glob_want
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C05'
RULE = ('Programs of assignments, tuple assignments, rule calls, comprehensions and method calls over typed expressions (string and list '
        'concatenation, tuples, maps, glob, select, variables, also of functions and reassigned ones, loop variables, members and argument names that are also '
        'variables, all forms of string literals), with and without things bant can not know. The program is executed by Python, where Starlark is a subset, '
        'with unknown names standing for themselves; the program after evaluation, rendered from the tree with all parentheses, must give the '
        'same variables, rule calls and statement values; lists with an unknown part may be reduced to the known part if marked. '
        'Expressions of supported operations only must become constants. Evaluating again changes nothing. Non-trivial: evaluation changed something.')
ASSUMPTIONS = ['Starlark expressions used here mean the same in Python.', 'Only the default branch of a select is known.',
               'Operators of different precedence are not mixed without parentheses (known finding).',
               'Lists are not modified by methods, no variable is used before it is defined.', 'Order of glob results is not specified.']

TREE = ['a.cc', 'b.cc', 'sub/c.cc', 'sub/d.h', 'e.h', 'sub/deep/f.cc']
VARS = ['A', 'B', 'C', 'x', 'name', 'srcs', 'v']
TUPLE_VARS = ['T1', 'T2']
UNKNOWN = ['U1', 'U2', 'native', 'glob2']
FUNS = ['f', 'helper']
RULES = ['cc_library', 'cc_test', 'genrule', 'package', 'load']
KW = ['name', 'srcs', 'deps', 'A', 'x', 'visibility']


# -- values Python computes
class Unknown:
  """Something only the build system knows."""

  def __init__(self, *key):
    self.key = key

  def __repr__(self):
    return '<?>'

  def __add__(self, o):
    return Cat([self]).join(o)

  def __radd__(self, o):
    return Cat([o] if not isinstance(o, Cat) else o.parts).join(self)

  def __call__(self, *a, **k):
    return Unknown('call', self, a, k)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return Unknown('member', self, n)

  def __getitem__(self, i):
    return Unknown('index', self, (i.start, i.stop) if isinstance(i, slice) else i)

  def __mod__(self, o):
    return Unknown('%', self, o)

  def __rmod__(self, o):
    return Unknown('%', o, self)

  def __iter__(self):
    return iter([Unknown('element', self)])


class Globbed:
  def __init__(self, files):
    self.files = files


class Cat(Unknown):
  """Concatenation with unknown parts, or parts in unknown order."""

  def __init__(self, parts):
    self.parts = parts

  def __iter__(self):
    if all(isinstance(p, (list, tuple, Opaque)) for p in self.parts):
      return iter([x for p in self.parts for x in p])
    return super().__iter__()

  def join(self, o):
    parts = list(self.parts)
    for p in o.parts if isinstance(o, Cat) else [o]:
      if parts and type(p) is type(parts[-1]) and isinstance(p, (list, str, tuple, int)):
        parts[-1] = type(p)(parts[-1] + p)
      elif isinstance(p, Unknown) or p not in ([], (), '') or not parts:
        if parts and parts[-1] in ([], (), ''):
          parts.pop()
        parts.append(p)
    return Cat(parts)

  def __add__(self, o):
    return self.join(o)


class Rule:
  def __init__(self, n, log):
    self.n, self.log = n, log

  def __call__(self, *a, **k):
    self.log.append((self.n, list(a), k))
    return Unknown('rule', self.n)

  def __eq__(self, o):
    return isinstance(o, Rule) and o.n == self.n

  __hash__ = None


class IncList(list):
  """A list some unknown parts of which are missing."""


def inc(v):
  return Cat([IncList(v)])


class Opaque(Unknown):
  """A list Python knows, but that bant does not evaluate."""

  def __init__(self, value):
    self.value = value

  def __iter__(self):
    return iter(self.value)


def opaque(v):
  return Cat([Opaque(v)]) if isinstance(v, (list, tuple)) or isinstance(v, Cat) and is_list(v) else v


class MarkOpaque(ast.NodeTransformer):
  def wrap(self, n):
    self.generic_visit(n)
    return ast.Call(func=ast.Name(id='opaque', ctx=ast.Load()), args=[n], keywords=[])

  visit_ListComp = visit_IfExp = visit_Subscript = wrap

  def __init__(self, names):
    self.names = names

  def visit_Name(self, n):
    return self.wrap(n) if n.id in self.names and isinstance(n.ctx, ast.Load) else n


def tuple_assigned(stmts):
  return {n.id for kind, text in stmts if kind == 'assign' for t in ast.parse(text).body[0].targets if isinstance(t, ast.Tuple) for n in t.elts}


def do_glob(include=None, exclude=(), *, files):
  inc, exc = flat(include), flat(exclude)
  return Cat([Globbed(sorted(glob_want(files, inc, exc)))])


def do_select(d):
  if '//conditions:default' not in d:
    return Unknown('select', d)
  v = d['//conditions:default']
  if len(d) > 1 and (isinstance(v, (list, tuple)) or isinstance(v, Cat) and is_list(v)):
    return Cat([Unknown('other branches')] if not isinstance(v, Cat) else v.parts).join(v if not isinstance(v, Cat) else Unknown('other branches'))
  return v


def is_list(c):
  return any(isinstance(p, (list, tuple, Globbed, Opaque)) for p in c.parts)


def flat(v):
  """Known elements of a list."""
  if isinstance(v, Cat):
    return [x for p in v.parts for x in flat(p)]
  if isinstance(v, Globbed):
    return list(v.files)
  return [x for x in v if isinstance(x, str)] if isinstance(v, (list, tuple)) else []


def same(w, g):
  """Value w of the original is represented by g after evaluation."""
  if isinstance(w, Cat) or isinstance(g, Cat):
    return match(list(tokens(w)), list(tokens(g)), incomplete(g))
  if isinstance(w, Unknown):
    if type(g) is not Unknown:
      return False
    return w.key[0] == 'element' and g.key[0] == 'element' or same(list(w.key), list(g.key))
  if type(w) is not type(g):
    return False
  if isinstance(w, (list, tuple)):
    return len(w) == len(g) and all(same(a, b) for a, b in zip(w, g))
  if isinstance(w, dict):
    return same(list(w.items()), list(g.items()))
  return w == g


def incomplete(v):
  if isinstance(v, Opaque):
    return incomplete(v.value)
  return isinstance(v, IncList) or isinstance(v, Cat) and any(incomplete(p) for p in v.parts)


def tokens(c):
  for p in c.parts if isinstance(c, Cat) else [c]:
    if isinstance(p, Opaque):
      yield 'opaque', list(tokens(p.value) if isinstance(p.value, Cat) else (('element', x) for x in p.value))
    elif isinstance(p, (list, tuple)):
      yield from (('element', x) for x in p)
    elif isinstance(p, Globbed):
      yield 'glob', p.files
    else:
      yield 'value', p


class Chain:
  """Tokens and what follows; expanded at most once, so that nodes can be compared by identity."""

  def __init__(self, head, tail):
    self.head, self.tail = head, tail
    self._opened = None

  @staticmethod
  def of(tokens, tail=None):
    for x in reversed(tokens):
      tail = Chain(x, tail)
    return tail

  def opened(self):
    """The content of the opaque value at the front, and what follows."""
    if self._opened is None:
      self._opened = Chain.of(self.head[1], self.tail),
    return self._opened[0]


def match(w, g, less):
  """Tokens are the same, without some of the unknown ones if less."""
  memo = {}

  def go(w, g):
    k = id(w), id(g)
    if k not in memo:
      memo[k] = step(w, g)
    return memo[k]

  def step(w, g):
    if w is None:
      while g is not None and g.head == ('opaque', []):
        g = g.tail
      return g is None
    kind, v = w.head
    if kind == 'value' and type(v) is Unknown and v.key == ('other branches',) and go(w.tail, g):
      return True
    if less and (kind == 'opaque' or kind == 'value' and isinstance(v, Unknown)) and go(w.tail, g):
      return True
    if kind == 'glob':
      n, rest = [], g
      while rest is not None and len(n) < len(v) and rest.head[0] == 'element' and isinstance(rest.head[1], str):
        n.append(rest.head[1])
        rest = rest.tail
      if sorted(n) == v and go(w.tail, rest):
        return True
    if kind == 'opaque' and go(w.opened(), g):
      return True
    if g is None:
      return False
    if g.head[0] == 'opaque':
      return go(w, g.opened())
    return kind == g.head[0] and same(v, g.head[1]) and go(w.tail, g.tail)

  return go(Chain.of(w), Chain.of(g))


def execute(stmts):
  """[(kind, python text)] -> (log, variables)"""
  log = []
  env = {n: Unknown(n) for n in VARS + TUPLE_VARS + UNKNOWN + FUNS}

  for r in RULES:
    env[r] = Rule(r, log)
  env['glob'] = lambda *a, **k: do_glob(*a, **k, files=TREE + ['BUILD', 'MODULE.bazel'])
  env['select'] = do_select
  env['Inc'] = inc
  env['opaque'] = opaque
  fixed = dict(env)
  names = tuple_assigned(stmts)
  for kind, text in stmts:
    if kind == 'expr':
      text = '_ = ' + text
    exec(compile(ast.fix_missing_locations(MarkOpaque(names).visit(ast.parse(text))), '<case>', 'exec'), env)
    if kind == 'expr':
      log.append(('value', env['_']))
  return log, {k: v for k, v in env.items() if k in VARS + TUPLE_VARS and v is not fixed.get(k)}


def describe(v):
  if isinstance(v, Opaque):
    return 'Opaque %s' % describe(v.value)
  if isinstance(v, Cat):
    return 'Cat' + repr([describe(p) for p in v.parts])
  if isinstance(v, Unknown):
    return '<%s>' % ' '.join(str(describe(k)) for k in v.key)
  if isinstance(v, Globbed):
    return 'glob%r' % v.files
  if isinstance(v, IncList):
    return type(v).__name__ + repr(describe(list(v)))
  if isinstance(v, (list, tuple)):
    return type(v)(describe(x) for x in v)
  if isinstance(v, dict):
    return {k: describe(x) for k, x in v.items()}
  return v


# -- the tree as Python
def unescaped(body, raw):
  if raw:
    return body
  out, i = '', 0
  while i < len(body):
    c = body[i]
    if c == '\\' and i + 1 < len(body):
      out += body[i:i + 2]
      i += 2
      continue
    out += '\\"' if c == '"' else '\\n' if c == '\n' else c
    i += 1
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    return ast.literal_eval('"' + out + '"')


def render(t):
  k = t[0]
  if k == 'str':
    return repr(unescaped(t[1], t[2]))
  if k == 'int':
    return str(t[2])
  if k == 'id':
    return t[1]
  if k == 'list':
    els = [render(x) for x in t[2:]]
    o = t[1][0]
    if o == '(':
      s = '(' + ''.join(e + ', ' for e in els) + ')'
    else:
      s = o + ', '.join(els) + {'[': ']', '{': '}'}[o]
    return 'Inc(%s)' % s if t[1][1:] else s
  if k == 'call':
    return args(t)
  if k == 'bin':
    op, l, r = t[1:]
    if op == ':':
      return '%s: %s' % (l and render(l) or '', r and render(r) or '')
    if op == '[':
      return '%s[%s]' % (render(l), render(r))
    if op == '.':
      return '%s.%s' % (render(l), r[1] if r[0] == 'id' else args(r))
    return '(%s %s %s)' % (render(l), op, render(r))
  if k == 'un':
    return '(%s %s)' % ({'!': 'not'}.get(t[1], t[1]), render(t[2]))
  if k == 'if':
    return '(%s if %s else %s)' % (render(t[2]), render(t[1]), render(t[3]))
  if k == 'compr':
    def fors(n):
      if n[0] == 'bin' and n[1] == 'for':
        rng = n[3]
        it = rng[3]
        cond = ''
        if it[0] == 'if' and it[3] is None:
          cond = ' if ' + render(it[1])
          it = it[2]
        return fors(n[2]) + ' for %s in %s%s' % (', '.join(render(v) for v in rng[2][2:]), render(it), cond)
      return render(n)
    return t[1] + fors(t[2]) + {'[': ']', '{': '}'}[t[1]]
  raise ValueError(t)


def args(t):
  out = []
  for a in t[2][2:]:
    out.append('%s = %s' % (a[1][1], render(a[2])) if a[0] == 'assign' else render(a))
  return '%s(%s)' % (render(t[1]), ', '.join(out))


def statements(tree):
  for t in tree[2:]:
    if t[0] == 'assign':
      yield 'assign', '%s = %s' % (t[1][1] if t[1][0] == 'id' else '(' + ''.join(x[1] + ', ' for x in t[1][2:]) + ')', render(t[2]))
    else:
      yield 'expr', render(t)


# -- programs
BODY = ['a', 'b.cc', ':x', '//foo:bar', ' ', '*.h', '%', 'ä', '{}', '\\\\', '\\t', '\\"', "\\'", '\\x41', '#']


@st.composite
def string(draw, closed):
  if draw(st.integers(0, 2)):
    return '"' + draw(st.sampled_from(['a', 'b', '', 'lib', 'c.cc', ':d', 'e f'])) + '"'
  q = draw(st.sampled_from(['"', "'", '"""', "'''"]))
  raw = draw(st.integers(0, 3)) == 0
  body = ''.join(draw(st.lists(st.sampled_from(BODY + (['\n', '\n'] if len(q) == 3 else [])), max_size=3)))
  if raw and '\\' in body and ('"' in body or "'" in body):
    body = body.replace('"', '').replace("'", '')
  if raw and closed:  # Concatenation of raw strings and ones with escapes is not done.
    body = body.replace('\\', '')
  if raw and body.endswith('\\'):
    body += 'n'
  return ('r' if raw else '') + q + body + q


class Gen:
  """Typed random expressions. Types: str, list, tuple, any."""

  def __init__(self, draw, closed):
    self.draw = draw
    self.closed = closed
    self.vars = {}   # name -> type
    self.loop = []   # loop variables
    self.hidden = []
    self.tuples = {}
    self.taken = set()
    self.ordered = True

  def pick(self, *c):
    return self.draw(st.sampled_from(c))

  def var(self, t):
    v = [n for n, k in {**self.vars, **self.tuples}.items() if k == t and n not in self.loop + self.hidden]
    return self.pick(*sorted(v)) if v else None

  def expr(self, t, depth):
    return self.sum(t, depth)[0]

  def sum(self, t, depth):
    """(text, is primary)"""
    if t == 'any':
      t = self.anything()
    n = self.pick(1, 1, 1, 2, 2, 3) if depth > 0 and t != 'map' and not (self.closed and t == 'int') else 1
    parts = [self.primary(t, depth) for _ in range(n)]
    if not self.closed and n > 1 and self.pick(*[0] * 5, 1):
      parts[self.draw(st.integers(0, n - 1))] = self.unknown(depth)
    if n == 1:
      return parts[0], True
    if n == 3 and self.pick(0, 1):
      parts = ['(%s + %s)' % (parts[0], parts[1]), parts[2]]
    ws = self.pick(' ', ' ', '\n')
    if ws == '\n':
      return '(' + (ws + '+ ').join(parts) + ')', True
    return ' + '.join(parts), False

  def paren(self, t, depth):
    e, p = self.sum(t, depth)
    return e if p else '(%s)' % e

  def unknown(self, depth):
    k = self.pick('id', 'id', 'call', 'member', 'memcall', 'index')
    u = self.pick(*UNKNOWN)
    if k == 'id':
      return u
    if k == 'call':
      return '%s(%s)' % (self.pick(*FUNS), self.arguments(depth - 1))
    for _ in range(self.pick(0, 0, 0, 1, 1, 2)):  # a.b.c
      u += '.' + self.pick('A', 'B', 'x', 'foo')
      if self.pick(0, 0, 0, 1):
        u += self.pick('()', '["A"]', '(A = 1)')
    m = self.pick('A', 'B', 'x', 'name', 'glob', 'select', 'foo')
    if k == 'member':
      return '%s.%s' % (u, m)
    if k == 'memcall':
      if m == 'select':
        return '%s.select({"//conditions:default": %s})' % (u, self.expr('list', depth - 1))
      if m == 'glob':
        return '%s.glob(["*.cc"])' % u
      return '%s.%s(%s)' % (u, m, self.arguments(depth - 1))
    return '%s[%s]' % (u, self.expr('str', depth - 1))

  def arguments(self, depth):
    out = [self.expr(self.pick('str', 'list', 'any'), depth) for _ in range(self.pick(0, 0, 1, 2))]
    for k in self.draw(st.lists(st.sampled_from(KW), max_size=2, unique=True)):
      out.append('%s = %s' % (k, self.expr(self.pick('str', 'list', 'any'), depth)))
    return ', '.join(out)

  def anything(self):
    return self.pick('str', 'list', 'tuple', 'int', *(() if self.closed else ('map', 'unknown')))

  def primary(self, t, depth):
    if t == 'any':
      t = self.anything()
    if t in ('str', 'list', 'tuple') and self.pick(0, 1):
      v = self.var(t)
      if v:
        return v
    if t == 'unknown':
      return self.unknown(depth)
    if t == 'int':
      return self.pick('0', '1', '0x1f', '12')
    if t == 'str':
      k = self.pick('lit', 'lit', 'lit', 'lit', 'join', 'format', 'if', 'loop', 'index') if depth > 0 and not self.closed else 'lit'
      if self.loop and self.pick(0, 1):
        return self.pick(*self.loop)
      if k == 'join':
        return '"-".join([%s])' % self.expr('str', depth - 1)
      if k == 'format':
        return '("%%s-" %% %s)' % self.paren('str', depth - 1)
      if k == 'if':
        return '(%s if %s else %s)' % (self.paren('str', depth - 1), self.pick('True', 'False'), self.expr('str', depth - 1))
      if k == 'index':
        return '[%s][0]' % self.expr('str', depth - 1)
      return self.draw(string(self.closed))
    if t == 'tuple':
      return '(%s)' % ''.join(self.expr('str', depth - 1) + ', ' for _ in range(self.pick(1, 2)))
    if t == 'map':
      return '{%s}' % ', '.join('%s: %s' % ('"k%d"' % i, self.expr(self.pick('str', 'any'), depth - 1)) for i in range(self.pick(0, 1, 2)))
    # list
    k = 'lit'
    if depth > 0:
      k = self.pick('lit', 'lit', 'lit', 'glob', 'select', *([] if self.closed else ['compr', 'compr', 'select2', 'if', 'index', 'bigselect']))
    if k in ('glob', 'select', 'select2', 'bigselect') and not self.ordered:
      k = 'lit'
    if k == 'glob':
      p = lambda: '[%s]' % ', '.join(self.pick('"*.cc"', '"**/*.cc"', '"sub/*"', '"**/*.h"', '"a.cc"', '"none"', '"*" + ".h"', '"**"') for _ in range(self.pick(1, 2)))
      how = self.pick('glob(%s)', 'glob(include = %s)', 'glob(%s, exclude = %s)', 'glob(%s, %s)', 'glob(exclude = %s, include = %s)', 'glob(%s + %s)')
      return how % tuple(p() for _ in range(how.count('%s')))
    if k == 'select':
      return 'select({"//conditions:default": %s})' % self.expr('list', depth - 1)
    if k == 'select2':
      return 'select({":c": %s})' % self.expr('list', depth - 1)
    if k == 'bigselect':
      b = ['":c": ' + self.expr('list', depth - 1), '"//conditions:default": ' + self.expr('list', depth - 1)]
      return 'select({%s})' % ', '.join(b if self.pick(0, 1) else b[::-1])
    if k == 'if':
      return '(%s if %s else %s)' % (self.paren('list', depth - 1), self.pick('True', 'False', 'U1'), self.expr('list', depth - 1))
    if k == 'index':
      return '{"k": %s}["k"]' % self.expr('list', depth - 1)
    if k == 'compr':
      return self.comprehension(depth, lambda: self.expr(self.pick('str', 'str', 'list'), depth - 1))
    return '[%s%s]' % (', '.join(self.expr(self.pick('str', 'str', 'str', 'str', 'any') if not self.closed else 'str', depth - 1) for _ in range(self.pick(0, 1, 1, 2, 3))), '')

  def comprehension(self, depth, body):
    before, self.ordered = self.ordered, False
    # Substituted values can not refer to variables hidden here (part of the known finding about tuple assignments).
    v = self.draw(st.lists(st.sampled_from([n for n in ['A', 'B', 'x', 'name', 'i', 'v'] if n not in self.taken]), min_size=1, max_size=2, unique=True))
    outer_hidden = list(self.hidden)
    self.hidden += v
    if len(v) == 2 and self.pick(0, 1):
      its = ['[(%s, %s), ("p", "q")]' % (self.expr('str', depth - 1), self.expr('str', 0))]
      clauses = [self.pick('(%s, %s)', '%s, %s') % tuple(v)]
    else:
      its = ['[%s, "z"]' % self.expr('str', depth - 1) for _ in v]
      clauses = v
    self.hidden = outer_hidden
    outer = list(self.loop)
    self.loop += v
    e = body()
    self.loop = outer
    self.ordered = before
    cond = self.pick('', '', ' if True', ' if U1')
    return '[' + e + ''.join(' for %s in %s' % x for x in zip(clauses, its)) + cond + ']'

  def statement(self):
    k = self.pick('assign', 'assign', 'assign', 'rule', 'rule', *([] if self.closed else ['tuple', 'call', 'compr', 'member', 'alias']))
    if k == 'assign':
      free = [n for n in VARS if n not in self.taken]
      n = self.pick(*free)
      t = self.pick('str', 'list', 'list', 'tuple') if self.closed else self.pick('str', 'list', 'list', 'tuple', 'any')
      e = self.expr(t, 2)
      # Lists in unknown order must not be looked into.
      self.vars[n] = t if t != 'any' else 'other'
      return 'assign', '%s = %s' % (n, e)
    if k == 'tuple':
      free = sorted(n for n in [*TUPLE_VARS, *self.vars] if n not in self.taken)
      if len(free) < 2:
        return self.statement()
      names = self.draw(st.lists(st.sampled_from(free), min_size=2, max_size=2, unique=True))
      e = '(%s, %s)' % (self.expr('list', 1), self.expr('str', 1))
      for n, t in zip(names, ('list', 'str')):
        self.taken.add(n)
        self.vars.pop(n, None)
        self.tuples[n] = t
      return 'assign', '(%s, %s) = %s' % (*names, e)
    if k == 'alias':
      if 'C' in self.taken:
        return self.statement()
      self.taken.add('C')
      self.vars.pop('C', None)
      return 'alias', 'C = %s' % self.pick('cc_library', 'helper', 'U1')
    if k == 'call':
      return 'expr', '%s(%s)' % (self.pick('C', *FUNS) if 'C' in self.taken and 'C' not in self.tuples else self.pick(*FUNS), self.arguments(2))
    if k == 'member':
      return 'expr', 'native.%s(%s)' % (self.pick('A', 'x', 'cc_library', 'foo'), self.arguments(2))
    if k == 'compr':
      return 'expr', self.comprehension(2, self.rule)
    return 'expr', self.rule()

  def rule(self):
    kw = self.draw(st.lists(st.sampled_from(KW), min_size=1, max_size=4, unique=True))
    out = []
    for k in kw:
      out.append('%s = %s' % (k, self.expr('str' if k == 'name' else 'list' if k != 'x' else 'any', 2)))
    return '%s(%s)' % (self.pick(*RULES[:4]), ', '.join(out))


@st.composite
def program(draw, closed):
  g = Gen(draw, closed)
  out = []
  for _ in range(draw(st.integers(1, 6))):
    s = g.statement()
    if s[1][0] == '(' and out and out[-1][1][-1].isalnum():  # New lines do not separate (known finding of C03).
      out.append(('expr', 'f()'))
    out.append(s)
  return out


def constant(t):
  return t[0] in ('str', 'int') or t[0] == 'list' and all(constant(x) for x in t[2:])


def elaborated(ctx, text):
  top = ctx.scratch()
  for f in TREE:
    os.makedirs(os.path.dirname(os.path.join(top, f)), exist_ok=True)
    open(os.path.join(top, f), 'w').close()
  open(os.path.join(top, 'MODULE.bazel'), 'w').close()
  with open(os.path.join(top, 'BUILD'), 'w', encoding='utf-8', newline='') as f:
    f.write(text)
  r = ctx.call('elaborate', top, 'BUILD', '', '', '1')
  ctx.eq(r[0], b'0', 'parse error %r of\n%s' % (r[1:2], text))
  ctx.eq(r[3], r[2], 'evaluating a second time:\n%s' % text)
  return decoded(json.loads(r[2].decode('latin-1')))


def decoded(t):
  """Strings of the driver are bytes."""
  if isinstance(t, str):
    return t.encode('latin-1').decode('utf-8')
  return [decoded(x) for x in t] if isinstance(t, list) else t


def run(ctx, c, closed=False, key=None):
  text = ''.join(t + '\n' for _, t in c)
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
      want = execute([(k, t) for k, t in c])
    except (TypeError, ValueError, AttributeError, KeyError, IndexError, NameError) as e:
      ctx.label('not valid: %s' % type(e).__name__)
      return
    tree = elaborated(ctx, text)
    rendered = list(statements(tree))
    ctx.eq(len(rendered), len(c), 'number of statements of\n%s' % text)
    try:
      got = execute(rendered)
    except Exception as e:  # pylint: disable=broad-except
      ctx.fail('evaluated program is broken (%s: %s):\n%s\n-- evaluated:\n%s' % (type(e).__name__, e, text, '\n'.join(t for _, t in rendered)), key)
      return
  for what, a, b in ((0, want[0], got[0]), (1, list(want[1].items()), list(got[1].items()))):
    if len(a) != len(b) or not all(same(list(x), list(y)) for x, y in zip(a, b)):
      bad = next(((x, y) for x, y in zip(a, b) if not same(list(x), list(y))), (a, b))
      ctx.fail('value changed:\n%s\n-- evaluated:\n%s\n-- before %s\n-- after %s' % (text, '\n'.join(t for _, t in rendered), describe(bad[0]), describe(bad[1])), key)
  if closed:
    for t in tree[2:]:
      for v in [t[2]] if t[0] == 'assign' else [a[2] for a in t[2][2:]]:
        if not constant(v):
          ctx.fail('not evaluated: %s in\n%s' % (render(v), text))
  if '+' in text or any(n in text for n in ('glob', 'select')) or any(n in t.split('=', 1)[-1] for n in VARS[:3] for _, t in c):
    ctx.hit()


CORNERS = [
    # Known findings.
    ('no-operator-precedence', [('assign', 'A = ["a"]'), ('assign', 'x = ["b"] * 2 + A')]),
    ('stale-value-after-tuple-assignment', [('assign', '(T1, T2) = ("a", "b")'), ('assign', 'A = T1'), ('expr', 'f()'), ('assign', '(T1, T2) = ("c", "d")'), ('assign', 'B = A')]),
    # Repaired.
    (None, [('assign', 'A = "a"'), ('assign', 'x = [A for A in ["b"]] + [A]')]),
    (None, [('assign', 'A = "a"'), ('expr', 'native.A(A = A)')]),
    (None, [('assign', 'A = "a"'), ('expr', 'cc_library(A = U1.A)')]),
    (None, [('assign', 'A = ["a"]'), ('expr', 'cc_library(srcs = U1.glob(["*.cc"]) + A, deps = U1.select({"//conditions:default": A}))')]),
    (None, [('assign', 'A = "a"'), ('assign', '(A, B) = ("b", "c")'), ('assign', 'x = A')]),
    (None, [('assign', 'x = r"\\d" + "\\n"'), ('assign', 'A = x + r"\\d"')]),
    (None, [('assign', 'x = """a\n"b""" + "\\n" + \'"\'')]),
    (None, [('alias', 'C = cc_library'), ('expr', 'C(name = "a" + "b")'), ('assign', 'C = "x"'), ('assign', 'x = C')]),
]


def run_corner(ctx, c):
  run(ctx, c[1], key=c[0])


def run_closed(ctx, c):
  run(ctx, c, True)


SUBS = [
    Sub('corners', st.sampled_from(CORNERS), run_corner, 0, 0, exhaustive=lambda: CORNERS),
    Sub('constants', program(True), run_closed, 2500, 100000),
    Sub('programs', program(False), run, 5000, 160000),
]


def prepare():
  return {'driver': build.driver()}
