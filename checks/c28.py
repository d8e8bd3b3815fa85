"""C28: print shows exactly the selected rules, grep and error filters included."""
import json
import os
import re

from hypothesis import strategies as st

from checks import c03
from checks.c10 import EXTS, pattern
from checks.models import label, loc, prog, project
from vlib import build, proto
from vlib.harness import Sub

PROPERTY = 'C28'
RULE = ('Workspaces with packages of rules whose arguments are generated expressions, with and without name and visibility, package '
        'defaults, comments and files with parse errors behind the last rule; printed with generated patterns, with regular '
        'expressions cut from the text (plain, anchored, case insensitive, empty matching, alternatives), with the errors-only filter, with colours, '
        'through the executable and in process. Expected are exactly the rules selected by the model, each with its header and '
        'a text that parses back to the same structure. Non-trivial: the filters select some but not all rules.')
ASSUMPTIONS = ['Matched is the content of strings as written and identifiers (the kind of rule, attribute names), each on its own.']

PKGS = [('', ''), ('', 'a'), ('', 'a/b'), ('', 'ab'), ('@ext', ''), ('@ext', 'a')]
KINDS = ['cc_library', 'cc_library', 'cc_binary', 'genrule', 'alias', 'my_rule', 'exports_files', 'x']
NAMES = ['a', 'b', 'lib', 'foo.h', 'all_', 'x/y', 'Lib']
WORDS = ['a.cc', 'b.h', ':x', '//foo:bar', 'FOO', 'foo', 'Bar', ' ', 'x y', '*.h', '\\n', 'ä', '', 'aXb', 'foobar', "it's", '[a]']


@st.composite
def value(draw, depth=0):
  """(text, tree)"""
  k = draw(st.sampled_from(['s', 's', 's', 'i', 'id', 'l', 'l', 'd', 'c', 'bin'])) if depth < 2 else 's'
  if k == 's':
    w = draw(st.sampled_from(WORDS))
    q = draw(st.sampled_from(['"', '"', "'", '"""', '"""']))
    if q in w:
      q = '"'
    if len(q) == 3:
      w = draw(st.sampled_from(['x\nfoo', 'foo\nx', 'a\n', '\nb', 'lib\n\nlib', 'a.c\nb', '\n']))
    return q + w + q, ['str', w, 0, int(len(q) == 3)]
  if k == 'i':
    return draw(st.sampled_from([('12', ['int', '12', 12]), ('0', ['int', '0', 0])]))
  if k == 'id':
    n = draw(st.sampled_from(['True', 'FOO', 'foo', 'None']))
    return n, ['id', n]
  if k == 'bin':
    a, b = draw(value(2)), draw(value(depth + 1))
    return a[0] + ' + ' + b[0], ['bin', '+', a[1], b[1]]
  vs = draw(st.lists(value(depth + 1), max_size=3))
  if k == 'l':
    return '[' + ', '.join(v[0] for v in vs) + ']', ['list', '['] + [v[1] for v in vs]
  if k == 'd':
    return ('{' + ', '.join('"k%d": %s' % (i, v[0]) for i, v in enumerate(vs)) + '}',
            ['list', '{'] + [['bin', ':', ['str', 'k%d' % i, 0, 0], v[1]] for i, v in enumerate(vs)])
  return 'glob(' + ', '.join(v[0] for v in vs) + ')', ['call', ['id', 'glob'], ['list', '('] + [v[1] for v in vs]]


def vislist(vis):
  """None is a variable."""
  return '[%s]' % ', '.join('"%s"' % v if v else 'VIS' for v in vis)


@st.composite
def rule(draw):
  """(kind, name or None, visibility or None, text, tree)"""
  kind = draw(st.sampled_from(KINDS))
  name = draw(st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.none()))
  vis = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(['//visibility:public', '//a:__pkg__', ':__subpackages__', None]), max_size=3)))
  args = []
  if name is not None:
    args.append(('name = "%s"' % name, ['assign', ['id', 'name'], ['str', name, 0, 0]]))
  if vis is not None:
    args.append(('visibility = %s' % vislist(vis),
                 ['assign', ['id', 'visibility'], ['list', '['] + [['str', v, 0, 0] if v else ['id', 'VIS'] for v in vis]]))
  for a in draw(st.lists(st.sampled_from(['srcs', 'deps', 'cmd', 'copts', 'foo']), max_size=3, unique=True)):
    v = draw(value())
    args.append(('%s = %s' % (a, v[0]), ['assign', ['id', a], v[1]]))
  if name is None:
    v = draw(value())
    args.append((v[0], v[1]))
  args = draw(st.permutations(args))
  sep = draw(st.sampled_from([', ', ',\n    ', ',  # foo "Bar"\n  ']))
  return kind, name, vis, '%s(%s)' % (kind, sep.join(a[0] for a in args)), ['call', ['id', kind], ['list', '('] + [a[1] for a in args]]


REGEX = ['foo', 'a', 'FOO', '^a', 'b$', '^$', 'a.*b', 'x*', '', 'foo|Bar', '[A-Z]', 'cc_library', 'name', '^name$', 'zzz', '\\.cc', 'glob',
         '//', 'ä', '(foo)(bar)', '(?:a|b)\\.', 'o+', 'True', '12', '^lib$', '\\[a', 'k1', '^foo', ' ', "'", '^', 'aXb', 'AxB', '^foo', '^lib', 'a$', '^b', '^x$']
BAD = ['(', '[', 'a)', '*', '(?P<', 'x{2,1}', '\\']


@st.composite
def case(draw):
  pk = draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=4, unique=True))
  w = []
  for p in pk:
    dv = draw(st.one_of(st.none(), st.none(), st.sampled_from([['//d:__pkg__', ':x'], [None, '//d:__pkg__']])))
    w.append((p, draw(st.sampled_from(['BUILD', 'BUILD.bazel'])), dv, draw(st.lists(rule(), max_size=4)), draw(st.integers(0, 2)) == 0,
              draw(st.booleans())))
  g = draw(st.one_of(st.none(), st.sampled_from(REGEX), st.sampled_from(REGEX), st.sampled_from(BAD) if draw(st.integers(0, 9)) == 0 else st.none()))
  cmd = draw(st.sampled_from(['print', 'print', 'print', 'parse']))
  kind = draw(st.sampled_from(['rec', 'rec', 'all', 'one', 'glob']))
  return (w, kind, draw(st.sampled_from(pk)), draw(st.sampled_from(NAMES)), g, draw(st.booleans()), draw(st.integers(0, 2)) == 0, cmd,
          draw(st.booleans()))


def texts(t):
  """The strings and identifiers, each on its own."""
  if isinstance(t, list):
    if t[0] in ('str', 'id'):
      yield t[1]
    elif t[0] != 'int':
      for x in t[1:]:
        yield from texts(x) if isinstance(x, list) else ()


ERR = ['x = [1,\n', ') \n', 'a = = b\n']


def build_text(dv, rules, broken, assigns):
  t, pos = '# Copyright\n', []
  if dv is not None:
    t += 'package(default_visibility = %s)\n' % vislist(dv)
  if assigns:
    t += 'FOO = ["foo", "a.cc"]\n'
  for r in rules:
    pos.append(len(t.encode()))
    t += r[3] + '\n\n'
  if broken:
    t += ERR[len(rules) % 3]
  return t, pos


def expect(w, kind, pkg, n, g, icase, only_errors):
  """[(header, tree)], total, files"""
  args, pat = pattern(kind, pkg, n)
  rx = None
  if g is not None and g != '':
    rx = re.compile(g.replace('$', r'\Z'), re.I if icase else 0)
  out, total, files = [], 0, {}
  for p, fn, dv, rules, broken, assigns in w:
    rel = project.build_path(p, fn)
    t, pos = build_text(dv, rules, broken, assigns)
    files[rel] = t
    total += len(rules)
    if not pat.match_package(*p) or only_errors and not broken:
      continue
    for (k, nm, vis, _, tree), o in zip(rules, pos):
      if pat.kind != 'recursive' and (not nm or not pat.match(*p, nm)):
        continue
      if rx and not any(rx.search(s) for s in texts(tree)):
        continue
      h = loc.show(t.encode(), o, len(k))
      v = vis if vis is not None else dv
      out.append((os.path.normpath(project.where(EXTS, *rel)), h, ' ' + project.show(p + (nm,)) if nm else '',
                  '' if v is None else ' (visibility:%s)' % ''.join(' ' + x for x in v if x), tree))
  return args, out, total, files


HEADER = re.compile(r'^# ([^\n]*?):(\d+:\d+(?:-\d+)?:)([^\n(]*?)( \(visibility:[^\n]*\))?$', re.M)


def run(ctx, c):
  w, kind, pkg, n, g, icase, only_errors, cmd, exe = c
  bad = g in BAD
  args, want, total, files = expect(w, kind, pkg, n, None if bad else g, icase, only_errors)
  ws = project.write(ctx.scratch(), EXTS, files)
  what = '%s %s -g %r%s%s of %r' % (cmd, args, g, ' -i' * icase, ' -E' * only_errors, files)
  if exe:
    cl = [ctx.env['bant']]
    if g is not None:
      cl += ['-g', g]
    cl += ['-i'] * icase + ['-E'] * only_errors + (['-p'] if cmd == 'parse' else []) + [cmd] + args
    status, out, err = proto.run(cl, cwd=ws, timeout=60)
  else:
    fl = (['g(' + '(?i)' * icase + g + ')'] if g else []) + ['E'] * only_errors + (['p'] if cmd == 'parse' else [])
    r = ctx.call('cli', ws, *fl, '--', cmd, *args)
    status, out, err = int(r[0]), r[1], r[2] + r[3]
    r2 = ctx.call('cli', ws, 'color', *fl, '--', cmd, *args)
    ctx.eq(re.sub(rb'\x1b\[[0-9;]*m', b'', r2[1]), out, 'with colours ' + what)
  out = out.decode()
  if bad:
    ctx.eq((status != 0, out), (True, ''), 'invalid expression ' + what)
    if b'rep pattern' not in err:
      ctx.fail('no message about the expression %r' % err)
    return
  ctx.eq(status, 0, 'status of ' + what)
  got = [(os.path.normpath(m.group(1)), m.group(2), m.group(3) or '', m.group(4) or '') for m in HEADER.finditer(out)]
  ctx.eq(sorted(got), sorted(x[:4] for x in want), what)
  for f in {x[0] for x in want}:
    ctx.eq([x for x in got if x[0] == f], [x[:4] for x in want if x[0] == f], 'order in ' + what)
  trees = {x[:4]: x[4] for x in want}
  parts = HEADER.split(out)
  ctx.eq(parts[0], '', 'start of output')
  for i, h in enumerate(got):
    body = parts[5 * i + 5]
    e, msg, tree, _ = c03.parse(ctx, body)
    if e:
      ctx.fail('does not parse: %r; %s' % (body, what))
    t = prog.utf8(['list', '[', trees[h]])
    ctx.eq(tree[2:], t[2:], 'structure of %r printed; %s' % (h, what))
  if want and len(want) < total:
    ctx.hit(*(['grep'] * (g is not None) + ['errors'] * only_errors))


SUBS = [Sub('select', case(), run, 6000, 120000)]


def prepare():
  return {'driver': build.driver(), 'bant': build.bant()}
