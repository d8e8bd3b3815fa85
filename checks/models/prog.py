"""Generator of valid BUILD programs together with the structure they mean.

Expressions are generated as (text, tree, primary?) where tree is the dump the
driver gives: lists starting with a tag. Operators group to the right unless
parenthesized (the documented simplification of the accepted language).
"""
import json

from hypothesis import strategies as st

NAMES = ['a', 'b', 'foo', 'SRCS', 'x1', '_p', 'notx', 'inn', 'r', 'native', 'ifx', 'name',
         'deps', 'glob', 'select', 'true', 'None', 'R', 'format', 'load']
OPS = ['+', '-', '*', '/', '<', '<=', '==', '>=', '>', '!=', 'in', 'not in', 'and', 'or',
       '|', '.', '%']
WORD_OPS = {'in', 'not in', 'and', 'or'}

# pieces of string content, as written in the source, without the quotes
CHUNKS = ['a', 'b.cc', ':x', '//foo:bar', ' ', '\\\\', '\\"', "\\'", '#', '\\n', '%s', '{}',
          '(', ']', ',', '=', 'ä', '\t', 'not in', '\\t', '$', '\x01']


@st.composite
def string_lit(draw, chunks=CHUNKS):
  q = draw(st.sampled_from(['"', '"', "'", '"""', "'''"]))
  raw = draw(st.integers(0, 5)) == 0
  other = "'" if q[0] == '"' else '"'
  extra = [other]
  if len(q) == 3:
    extra += ['\n', q[0] + 'x', q[0] * 2 + 'x', other * 3]
  else:
    extra += [other * 2, other * 3]
  body = ''.join(draw(st.lists(st.sampled_from(chunks + extra), max_size=4)))
  return ('r' if raw else '') + q + body + q, ['str', body, int(raw), int(len(q) == 3)], True


@st.composite
def int_lit(draw):
  v = draw(st.integers(0, 2**63 - 1) | st.integers(0, 99))
  k = draw(st.integers(0, 3))
  t = '%d' % v if k < 2 else ('0x%x' % v if k == 2 else '0o%o' % v)
  return t, ['int', t, v], True


@st.composite
def ident(draw):
  n = draw(st.sampled_from(NAMES))
  return n, ['id', n], True


@st.composite
def ws(draw):
  """White space inside brackets."""
  return draw(st.sampled_from(['', '', '', '', ' ', ' ', '\n', '  # c "x\n', '\\\n', '\n\n', '\t', '\r\n',
                               "#'''\n"]))


def paren(e):
  return e if e[2] else ('(' + e[0] + ')', e[1], True)


def left_operand(draw, sub):
  e = draw(sub)
  if e[2]:
    return e
  if draw(st.integers(0, 5)) == 0:
    return paren(e)
  return draw(ident())


def maybe_paren(draw, e):
  if draw(st.integers(0, 7)) == 0:
    return '(' + e[0] + ')', e[1], True
  return e


@st.composite
def seq(draw, items, open_, close, trailing_ok=True):
  out = open_
  for i, t in enumerate(items):
    out += draw(ws()) + t + draw(ws())
    if i + 1 < len(items):
      out += ','
  if items and trailing_ok and draw(st.integers(0, 2)) == 0:
    out += ',' + draw(ws())
  if not items:
    out += draw(ws())
  return out + close


def glue(l, op, r):
  if op in WORD_OPS or op == '.':
    pass
  return l, op, r


@st.composite
def compound(draw, sub):
  kind = draw(st.sampled_from(['bin', 'bin', 'bin', 'list', 'list', 'map', 'tuple', 'call', 'call',
                               'if', 'un', 'index', 'slice', 'compr', 'mcompr', 'paren', 'member']))
  if kind == 'bin':
    l, r = left_operand(draw, sub), maybe_paren(draw, draw(sub))
    op = draw(st.sampled_from(OPS))
    if op == '.':
      r = draw(st.one_of(ident(), call(sub)))
      if l[1][0] == 'int':
        l = draw(ident())
    if op == 'not in':
      ot = draw(st.sampled_from(['not in', 'not  in', 'not\n in', 'not\tin']))
    else:
      ot = op
    sp1 = draw(st.sampled_from([' ', ' ', '\n', ' \\\n', ' #c\n']))
    sp2 = draw(st.sampled_from([' ', ' ', '\n', ' #c\n']))
    if op not in WORD_OPS and draw(st.booleans()):
      sp1 = sp2 = ''
    return l[0] + sp1 + ot + sp2 + r[0], ['bin', op, l[1], r[1]], op == '.'
  if kind == 'member':
    l = draw(st.one_of(ident(), string_lit(), call(sub)))
    r = draw(st.one_of(ident(), call(sub)))
    if draw(st.integers(0, 2)) == 0:
      l = l[0] + '.' + r[0], ['bin', '.', l[1], r[1]], True
      r = draw(ident())
    return l[0] + '.' + r[0], ['bin', '.', l[1], r[1]], True
  if kind in ('list', 'tuple'):
    els = draw(st.lists(sub, max_size=4))
    if kind == 'list':
      return (draw(seq([e[0] for e in els], '[', ']')), ['list', '['] + [e[1] for e in els], True)
    if len(els) == 1:
      return '(' + els[0][0] + ',)', ['list', '(', els[0][1]], True
    return (draw(seq([e[0] for e in els], '(', ')', bool(els))),
            ['list', '('] + [e[1] for e in els], True)
  if kind == 'map':
    els = draw(st.lists(st.tuples(sub, sub), max_size=3))
    return (draw(seq([k[0] + draw(ws()) + ':' + draw(ws()) + v[0] for k, v in els], '{', '}')),
            ['list', '{'] + [['bin', ':', k[1], v[1]] for k, v in els], True)
  if kind == 'call':
    return draw(call(sub))
  if kind == 'if':
    p, c, n = left_operand(draw, sub), paren(draw(sub)), draw(sub)
    return (p[0] + ' if ' + c[0] + draw(st.sampled_from([' ', '\n'])) + 'else ' + n[0],
            ['if', c[1], p[1], n[1]], False)
  if kind == 'un':
    x = draw(sub)
    op, t = draw(st.sampled_from([('-', '-'), ('!', 'not '), ('-', '- ')]))
    return t + x[0], ['un', op, x[1]], False
  if kind == 'index':
    l, r = left_operand(draw, sub), draw(sub)
    return l[0] + '[' + draw(ws()) + r[0] + draw(ws()) + ']', ['bin', '[', l[1], r[1]], True
  if kind == 'slice':
    l = left_operand(draw, sub)
    f, t = draw(st.sampled_from([(1, 1), (0, 1), (1, 0)]))
    f = draw(sub) if f else ('', None, True)
    t = draw(sub) if t else ('', None, True)
    return (l[0] + '[' + f[0] + draw(ws()) + ':' + draw(ws()) + t[0] + ']',
            ['bin', '[', l[1], ['bin', ':', f[1], t[1]]], True)
  if kind in ('compr', 'mcompr'):
    e = draw(sub)
    if kind == 'compr':
      text, tree, o, c = e[0], e[1], '[', ']'
    else:
      v = draw(sub)
      text, tree, o, c = e[0] + ': ' + v[0], ['bin', ':', e[1], v[1]], '{', '}'
    for _ in range(draw(st.integers(1, 2))):
      vs = draw(st.lists(st.sampled_from(['i', 'j', 'k']), min_size=1, max_size=3))
      vt = draw(st.sampled_from([', '.join(vs), '(' + ','.join(vs) + ')',
                                 ','.join(vs) + ',', '(' + ', '.join(vs) + ',)']))
      it = paren(draw(sub))
      cond = ''
      itree = it[1]
      if draw(st.integers(0, 2)) == 0:
        cd = paren(draw(sub))
        cond = ' if ' + cd[0]
        itree = ['if', cd[1], it[1], None]
      text += draw(st.sampled_from([' ', '\n'])) + 'for ' + vt + ' in ' + it[0] + cond
      variables = ['list', '('] + [['id', v] for v in vs]
      if len(vs) == 1 and ',' in vt:  # unpacks
        variables = ['list', '(', variables]
      tree = ['bin', 'for', tree, ['bin', 'in', variables, itree]]
    return o + text + draw(ws()) + c, ['compr', o, tree], True
  e = draw(sub)
  return '(' + draw(ws()) + e[0] + draw(ws()) + ')', e[1], True


@st.composite
def call(draw, sub, name=None):
  n = name or draw(st.sampled_from(NAMES))
  args, trees = [], []
  for _ in range(draw(st.integers(0, 3))):
    v = draw(sub)
    if draw(st.booleans()):
      k = draw(st.sampled_from(['name', 'srcs', 'deps', 'x', 'not_', 'visibility']))
      eq = draw(st.sampled_from([' = ', '=', ' =', '=\n']))
      args.append(k + eq + v[0])
      trees.append(['assign', ['id', k], v[1]])
    else:
      args.append(v[0])
      trees.append(v[1])
  return n + draw(seq(args, '(', ')')), ['call', ['id', n], ['list', '('] + trees], True


leaf = st.one_of(string_lit(), int_lit(), ident(), string_lit(), ident())
_lvl = leaf
for _i in range(3):
  _lvl = st.one_of(leaf, compound(_lvl), compound(_lvl))
expr = _lvl
simple_expr = st.one_of(leaf, compound(leaf))


def ends_in_name(text):
  t = text.rstrip()
  return bool(t) and (t[-1].isalnum() or t[-1] == '_')


@st.composite
def statement(draw, e=expr):
  k = draw(st.sampled_from(['assign', 'call', 'call', 'call', 'tuple', 'list', 'doc', 'member',
                            'compr']))
  if k == 'assign':
    n = draw(st.sampled_from(NAMES))
    v = draw(e)
    return n + draw(st.sampled_from([' = ', '=', ' \\\n = '])) + v[0], [['assign', ['id', n], v[1]]]
  if k == 'call':
    c = draw(call(e))
    return c[0], [c[1]]
  if k == 'tuple':
    vs = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))
    v = draw(e)
    comma = draw(st.sampled_from(['', ',']))
    t = '(' + ', '.join(vs) + comma + ') = ' + v[0]
    if len(vs) == 1 and not comma:  # just parentheses
      return t, [['assign', ['id', vs[0]], v[1]]]
    return t, [['assign', ['list', '('] + [['id', x] for x in vs], v[1]]]
  if k == 'doc':
    s = draw(string_lit())
    return s[0], []
  if k == 'member':
    l = draw(ident())
    r = draw(call(e))
    return l[0] + '.' + r[0], [['bin', '.', l[1], r[1]]]
  if k == 'list':
    els = draw(st.lists(e, max_size=3))
    return draw(seq([x[0] for x in els], '[', ']')), [['list', '['] + [x[1] for x in els]]
  c = draw(call(e))
  vs = draw(st.sampled_from(['i', 'j']))
  it = paren(draw(e))
  return ('[' + c[0] + ' for ' + vs + ' in ' + it[0] + ']',
          [['compr', '[', ['bin', 'for', c[1], ['bin', 'in', ['list', '(', ['id', vs]], it[1]]]]])


@st.composite
def program(draw, e=expr, max_statements=4):
  """(source text, expected toplevel trees)."""
  text, trees = '', []
  if draw(st.integers(0, 4)) == 0:
    text = draw(st.sampled_from(['# comment\n', '\n\n', '"""doc\nstring"""\n', '#\n']))
  for _ in range(draw(st.integers(1, max_statements))):
    t, tr = draw(statement(e))
    if t.startswith('(') and ends_in_name(text):
      text += '"no-op"\n'  # keep apart from a call
    text += t
    text += draw(st.sampled_from(['\n', '\n\n', '  # end\n', '\n#x\n']))
    trees += tr
  if draw(st.booleans()):
    text = text.rstrip()
    if text.endswith('\\'):
      text += '\n'
  return text, trees


def utf8(tree):
  """Expected dump: strings as bytes-as-latin1, as the driver shows them."""
  return json.loads(json.dumps(_u(tree)))


def _u(t):
  if isinstance(t, list):
    return [_u(x) for x in t]
  if isinstance(t, str):
    return t.encode('utf-8').decode('latin-1')
  return t


def strip_pos(d):
  """Removes offsets and locations from a dump."""
  if not isinstance(d, list):
    return d
  if d[0] == 'str':
    return d[:4]
  if d[0] == 'int':
    return d[:3]
  if d[0] == 'id':
    return d[:2]
  return [strip_pos(x) for x in d]
