"""C27: rule queries see each target once with its own attributes."""
import csv
import io
import json
import os

from hypothesis import strategies as st

from checks.c10 import EXTS, pattern
from checks.models import label, loc, project
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C27'
RULE = ('listing: workspaces of packages in the main and an external project with rules of many kinds, names in every literal form, unnamed rules, '
        'names that are no constants, nested calls with a name of their own, rules in comments, docstrings, comprehensions and behind native., '
        'listed with generated patterns; rows (file, exact position of the name, kind, label, order) are compared with the description. attributes: files with '
        'several rules with any subset of the attributes in any order, also of the wrong type, nested in calls, and a package() default, queried '
        'for generated rule kinds. Non-trivial: at least two rows of which one is next to a construct that must not be listed; '
        'at least two rules that differ in which attributes they set.')
ASSUMPTIONS = ['package() comes before the rules it is a default for.', 'An empty string is the same as an absent attribute.']

KINDS = ['cc_library', 'cc_binary', 'cc_test', 'alias', 'genrule', 'my_rule', 'java_library', 'filegroup', '_x', 'cc_library2', 'packages', 'py_test']
NAMES = ['a', 'b', 'lib', 'x-y', 'x/y', 'ext', 'foo.h', 'ä', 'x y', 'all_', 'c@d', 'package', 'aa']
PKGS = [('', ''), ('', 'a'), ('', 'a/b'), ('', 'lib'), ('@ext', ''), ('@ext', 'a')]

NOISE = [
    'load("//a:b.bzl", "cc_library")\n', 'exports_files(["name"])\n', '# cc_library(name = "comment")\n',
    '"""cc_library(name = "doc")"""\n', 'X = ["name", "a"]\n', 'cc_library(srcs = ["no_name.cc"])\n',
    '[cc_library(name = "n" + i) for i in ["1", "2"]]\n', 'cc_library(name = X)\n', 'my_rule("name", "a")\n',
    'cc_test(name = "p" + NN)\n', 'licenses(["notice"])\n', 'cc_library(\n    name = "",\n)\n', 'Y = glob(["*"], exclude = ["name"])\n',
    'my_rule(name = ["x"])\n', 'my_rule(my_name = "y", rename = "z")\n', 'package(default_visibility = ["//a:__pkg__"])\n',
    'package(name = "pkg", default_testonly = True)\n', 'package(inner(name = "in_package"), default_visibility = [])\n',
    'package([dict(name = "q", srcs = ["s.cc"])])\n',
]
# %s is the name literal
SHAPES = [
    '{k}(name = {n})\n', '{k}(name = {n}, srcs = ["a.cc"])\n', '{k}(\n    srcs = ["name"],\n    name = {n},\n)\n', '{k}(srcs = glob(["*.cc"], exclude = ["name"]), name={n})\n',
    '{k}(name =\n    {n}  # name = "c"\n)\n', 'native.{k}(name = {n})\n', '{k}(deps = select({{"a": [":b"]}}), name = {n})\n',
    '{k}(x = struct(name = "nested"), name = {n})\n', '{k}(name = {n}, x = struct(name = "nested", deps = ["z"]))\n',
    '{k}(inner(name = "nested"), name = {n})\n', '{k}("pos", name = {n}, size = 3)\n', '{k}(name = ({n}))\n', '\t{k}  (  name  =  {n}  )\n',
    '[{k}(name = {n})]\n', '{k}(d = {{"name": "x"}}, name = {n}, l = [dict(name = "l")])\n',
]
QUOTES = ['"%s"', '"%s"', '"%s"', "'%s'", '"""%s"""', 'r"%s"', "'''%s'''"]


@st.composite
def package(draw):
  items = []
  for _ in range(draw(st.integers(0, 5))):
    if draw(st.integers(0, 2)):
      items.append((draw(st.sampled_from(KINDS)), draw(st.sampled_from(NAMES)), draw(st.integers(0, len(SHAPES) - 1)), draw(st.integers(0, len(QUOTES) - 1))))
    else:
      items.append(draw(st.sampled_from(NOISE)))
  return items


@st.composite
def case(draw):
  pk = draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=4, unique=True))
  w = [(p, draw(st.sampled_from(['BUILD', 'BUILD.bazel'])), draw(package())) for p in pk]
  return w, draw(st.sampled_from(['none', 'rec', 'all', 'all', 'one', 'glob'])), draw(st.sampled_from(pk)), draw(st.sampled_from(NAMES)), draw(st.booleans())


def source(items):
  """(text, [(offset of name, size, kind, name)])"""
  t, rows = b'', []
  for i in items:
    if isinstance(i, str):
      t += i.encode()
      continue
    k, n, s, q = i
    mark = '\x01'
    text = SHAPES[s].format(k=k, n=QUOTES[q] % mark).encode()
    at = text.index(b'\x01')
    nb = n.encode()
    rows.append((len(t) + at, len(nb), k, n))
    t += text.replace(b'\x01', nb)
  return t, rows


def run(ctx, c):
  w, kind, pkg, n, elab = c
  args, pat = pattern(kind, pkg, n)
  files, want = {}, {}
  odd = False
  for p, fn, items in w:
    t, rows = source(items)
    rel = project.build_path(p, fn)
    files[rel] = t
    if not (not p[0] if kind == 'none' else pat.match_package(*p)):
      continue
    path = os.path.normpath(project.where(EXTS, *rel))
    for off, size, k, nm in rows:
      if kind == 'none' or pat.match(*p, nm):
        want.setdefault(path, []).append((path + ':' + loc.show(t, off, size), k, project.show(p + (nm,))))
    odd |= any(isinstance(i, str) or i[2] >= 5 for i in items)
  ws = project.write(ctx.scratch(), EXTS, files)
  what = 'list-targets %s of %r' % (args, files)
  r = ctx.call('cli', ws, 'fcsv', *['e'] * elab, '--', 'list-targets', *args)
  ctx.eq(r[0], b'0', 'status of ' + what)
  got = {}
  for a, b, d in list(csv.reader(io.StringIO(r[1].decode())))[1:]:
    f, _, rest = a.partition(':')
    f = os.path.normpath(f)
    if elab and d.rstrip('12').endswith(':n'):
      continue  # from the comprehension
    got.setdefault(f, []).append((f + ':' + rest, b, d))
  ctx.eq(got, want, what)
  n_rows = sum(map(len, want.values()))
  if n_rows > 1 and odd:
    ctx.hit('rows%d' % min(n_rows, 6))


# -- attributes
STR = ['actual', 'version', 'repo_name', 'deprecation', 'include_prefix', 'strip_include_prefix']
LST = ['srcs', 'hdrs', 'textual_hdrs', 'public_hdrs', 'deps', 'outs', 'visibility', 'includes']
BOOL = ['alwayslink', 'testonly']
OTHER = ['src', 'hdr', 'names', 'dep', 'Deps', 'default_visibility', 'linkopts', 'data', 'test_only', 'private_deps', 'tags']
WORDS = ['a', 'b.cc', ':x', '//visibility:public', 'foo.h', '//a/b:c', 'ä', 'x y', '']
CALLKINDS = ['cc_library', 'cc_library', 'cc_binary', 'cc_test', 'alias', 'genrule', 'my_rule', 'foo', 'package_group']
OF = {0: None, 1: {'cc_library'}, 2: {'cc_library', 'cc_binary', 'cc_test'}, 3: {'alias'}, 4: {'genrule', 'my_rule'}}

words = st.lists(st.sampled_from(WORDS), max_size=3)


@st.composite
def attr(draw):
  n = draw(st.sampled_from(STR + LST + LST + BOOL * 2 + OTHER))
  k = draw(st.integers(0, 11))
  if k == 0:
    if n == 'visibility':
      n = 'srcs'
    v = draw(st.sampled_from([('id', 'VAR'), ('expr', 'a + b'), ('expr', 'struct(deps = ["q"], testonly = 1, visibility = ["v"])'),
                              ('expr', 'select({"a": ["q"]})'), ('expr', '{"deps": ["q"]}'), ('expr', '-1'), ('expr', '["q"] + ["r"]'),
                              ('expr', '[x for x in ["q"]]')]))
  elif n in STR:
    v = draw(st.sampled_from(WORDS))
  elif n in BOOL:
    v = draw(st.sampled_from([True, False, 1, 0]))
  elif n in LST:
    v = draw(words)
    if draw(st.integers(0, 4)) == 0:
      v = v + [('id', 'NAME'), ('expr', 'f(name = "q")'), ['nested'], ('expr', '"a" + "b"')]
  else:
    v = draw(st.one_of(st.sampled_from(WORDS), words, st.booleans()))
  return n, v


@st.composite
def attrcase(draw):
  rules = []
  for _ in range(draw(st.integers(1, 4))):
    at = {}
    for n, v in draw(st.lists(attr(), max_size=6)):
      at.setdefault(n, v)
    at = sorted(at.items(), key=lambda x: hash((x[0], len(at))) % 7 if False else x[0])
    at = draw(st.permutations(at + ([('name', draw(st.sampled_from(NAMES)))] if draw(st.integers(0, 4)) else [])))
    rules.append((draw(st.sampled_from(CALLKINDS)), list(at), draw(st.integers(0, 3))))
  vis = draw(st.one_of(st.none(), words.map(lambda x: x or ['//q:__pkg__'])))
  if vis is not None:
    # The other arguments of package()
    more = draw(st.lists(st.sampled_from([('testonly', True), ('deps', ['leak']), ('default_applicable_licenses', ['//:lic']), ('features', ['f']),
                                          ('default_deprecation', 'old'), ('visibility', ['//leak:__pkg__']), ('name', 'pkg'),
                                          ('default_package_metadata', []), ('transitive_visibility', ['//leak:t'])]), max_size=4, unique_by=lambda x: x[0]))
    vis = vis, draw(st.permutations(more + [('default_visibility', vis)]))
  return vis, rules, draw(st.integers(0, 4)), draw(st.booleans())


def plain(v):
  return [x for x in v if isinstance(x, str) and x]


def expected(vis, rules, of, empty):
  out = []
  for kind, at, _ in rules:
    d = dict(at)
    name = d.get('name', '')
    if OF[of] and kind not in OF[of] or not name and not empty:
      continue
    e = {'rule': kind, 'name': name}
    for a in STR:
      e[a] = d[a] if isinstance(d.get(a), str) else ''
    for a in LST:
      e[a] = plain(d[a]) if isinstance(d.get(a), list) else None
    if e['visibility'] is None:
      e['visibility'] = plain(vis) if vis is not None else None
    for a in BOOL:
      e[a] = int(d.get(a) in (True, 1) and isinstance(d.get(a), int))
    out.append(e)
  return out


def run_attr(ctx, c):
  vis, rules, of, empty = c
  t = 'load("x", "y")\n'
  if vis is not None:
    vis, at = vis
    t += project.rule_text('package', at, len(at))
  starts = []
  for kind, at, style in rules:
    r = project.rule_text(kind, at, style)
    starts.append(len(t.encode()) + r.encode().index(kind.encode() + b'('))
    t += r
  want = expected(vis, rules, of, empty)
  r = ctx.call('query', t, of, empty)
  ctx.eq(r[0], b'0', 'parse of %r' % t)
  got = [json.loads(x.decode('latin-1')) for x in r[1:]]

  def u(s):
    return s.encode().decode('latin-1')
  want = [{k: u(v) if isinstance(v, str) else [u(x) for x in v] if isinstance(v, list) else v for k, v in e.items()} for e in want]
  if OF[of] is None:
    got = [g for g in got if g['rule'] not in ('load',)]
  ctx.eq(len(got), len(want), 'number of rules in %r' % t)
  for g, e in zip(got, want):
    at = g.pop('at')
    if at not in starts:
      ctx.fail('rule at %d of %r' % (at, t))
    if e['rule'] == 'cc_library' and not e['hdrs']:
      e['alwayslink'] = g['alwayslink']  # Deliberately assumed.
    for a in LST:
      if a != 'visibility':
        g[a], e[a] = g[a] or [], e[a] or []
    ctx.eq(g, e, 'attributes of %r' % t)
  if len(want) > 1 and len({tuple(sorted(dict(at))) for _, at, _ in rules}) > 1:
    ctx.hit('default-visibility' if vis else 'no-default')


SUBS = [
    Sub('listing', case(), run, 6000, 120000),
    Sub('attributes', attrcase(), run_attr, 9000, 200000),
]


def prepare():
  return {'driver': build.driver()}
