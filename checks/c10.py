"""C10: the dependency graph is exactly the transitive closure of the declared dependencies."""
import json

from hypothesis import strategies as st

from checks.models import label, project
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C10'
RULE = ('Workspaces of up to nine packages in the main and two external projects, with rules of any kind whose deps (or actual) refer to '
        'targets by any spelling: existing, missing, in missing packages, undeclared projects, themselves and in cycles; files named '
        'BUILD or BUILD.bazel, with another one or a directory of the other name beside. depends-on, has-dependents, list-packages and aliased-by are run from generated patterns with every '
        'recursion depth and compared with a breadth first search over the description of the workspace. Non-trivial: '
        'the search needs at least two rounds beyond the pattern, or meets a cycle or a missing target.')
ASSUMPTIONS = ['Rule names are unique within a package.', 'Duplicate labels in one deps list may be listed once or as often as written.']

PKGS = [('', ''), ('', 'a'), ('', 'a/b'), ('', 'ab'), ('', 'c'), ('@ext', ''), ('@ext', 'a'), ('@ext', 'x/y'), ('@e2', 'a')]
GONE = [('', 'gone'), ('@ext', 'gone'), ('@none', 'a'), ('', 'a/gone')]
NAMES = ['a', 'b', 'ab', 'l0', 'ext', 'y', 'x/z', 'all_', 'a.b']
EXTS = [('@ext', 'ext~1.0'), ('@e2', 'e2')]
KINDS = ['cc_library', 'cc_library', 'cc_binary', 'cc_test', 'my_rule', 'alias', 'alias', 'genrule', 'java_library']


@st.composite
def space(draw):
  """[(package, file name, [(kind, name, [(target, spelling)], style)])]"""
  pk = draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=7, unique=True))
  names = {p: draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)) for p in pk}
  all_ = [p + (n,) for p in pk for n in names[p]]
  gone = [p + (n,) for p in GONE + pk for n in ('a', 'nope')]
  tgt = st.one_of(st.sampled_from(all_), st.sampled_from(all_), st.sampled_from(all_), st.sampled_from(gone)) if all_ else st.sampled_from(gone)
  out = []
  chain = draw(st.booleans())
  for p in pk:
    rules = []
    for n in names[p]:
      kind = draw(st.sampled_from(KINDS))
      deps = draw(st.lists(st.tuples(tgt, st.integers(0, 11)), max_size=1 if kind == 'alias' else 3))
      if chain and kind != 'alias':
        i = all_.index(p + (n,))
        deps.append((all_[(i + 1) % len(all_)], draw(st.integers(0, 11))))
      rules.append((kind, n, deps, draw(st.integers(0, 15))))
    out.append((p, draw(st.sampled_from(['BUILD', 'BUILD.bazel', 'BUILD', 'BUILD.bazel', 'both', 'dir', 'dir.bazel'])), rules))
  return out


PATTERNS = [('rec', ('', '')), ('rec', ('', 'a')), ('rec', ('@ext', '')), ('rec', ('', 'a/b'))]


@st.composite
def case(draw):
  w = draw(space())
  pkg = draw(st.sampled_from([x[0] for x in w]))
  kind = draw(st.sampled_from(['none', 'rec', 'all', 'one', 'one', 'one', 'glob']))
  n = draw(st.sampled_from(NAMES))
  here = [r[1] for x in w if x[0] == pkg for r in x[2]]
  if here and draw(st.booleans()):
    n = draw(st.sampled_from(here))
  return w, kind, pkg, n, draw(st.sampled_from([None, 0, 1, 2, 3, 99, 'all']))


def text(w, expr):
  files = {}
  for pkg, fn, rules in w:
    t = 'load("@ext//a:b.bzl", "x")\npackage(default_visibility = ["//visibility:public"])\n'
    for kind, n, deps, style in rules:
      labels = [project.spell(x, pkg, s) for x, s in deps]
      at = [('name', n)]
      if kind == 'alias':
        if labels:
          at.append(('actual', labels[0]))
      elif expr(pkg) and style % 3 == 0 and len(labels) > 1:
        at.append(('deps', ('expr', '[%s] + [%s]' % (project.lit(labels[0]), ', '.join(map(project.lit, labels[1:]))))))
      elif kind == 'my_rule' and style % 4 == 1 and labels:  # Has both.
        at.insert(style % 2, ('actual', labels.pop()))
        at.append(('deps', labels))
      else:
        at.append(('deps', labels))
      if style % 7 == 2 and at[-1][0] == 'deps' and isinstance(at[-1][1], list):
        at[-1] = 'deps', [project.NO_LABEL[style % 6]] + labels
      if style % 5 == 1:
        at.append(('srcs', [':ab', '//c:l0']))
      t += project.rule_text(kind, at, style)
    if fn == 'both':  # Only the one with extension counts.
      files[project.build_path(pkg, 'BUILD')] = 'alias(name = "b", actual = "//c:l0")\ncc_library(name = "no", deps = ["//a", "//gone:x"])\n'
    elif fn.startswith('dir'):  # A directory that is called the same as the other one.
      pr, path = project.build_path(pkg, 'BUILD' if fn.endswith('bazel') else 'BUILD.bazel')
      files[pr, path + '/README'] = ''
    files[project.build_path(pkg, {'both': 'BUILD.bazel', 'dir': 'BUILD', 'dir.bazel': 'BUILD.bazel'}.get(fn, fn))] = t
  return files


def pattern(kind, pkg, n):
  pr, p = pkg
  if kind == 'none':
    return [], label.Pattern('recursive', '', '')
  if kind == 'rec':
    return ['%s//%s...' % (pr, p + '/' if p else '')], label.Pattern('recursive', pr, p)
  if kind == 'all':
    return ['%s//%s:all' % (pr, p)], label.Pattern('package', pr, p)
  if kind == 'glob':
    return ['%s//%s:%s*' % (pr, p, n[0])], label.Pattern('glob', pr, p, n[0] + '*')
  return ['%s//%s:%s' % (pr, p, n)], label.Pattern('exact', pr, p, n)


class Graph:
  def __init__(self, w, pat, depth):
    deps = {}
    for pkg, _, rules in w:
      for kind, n, d, _ in rules:
        deps[pkg + (n,)] = [x for x, _ in d]
    there = {x[0] for x in w}
    self.initial = {p for p in there if pat.match_package(*p)}
    todo = {t for t in deps if t[:2] in self.initial and pat.match(*t)}
    self.parsed = set(self.initial)
    self.nodes = {}
    self.rounds = 0
    self.missing = 0
    self.cycle = False
    seen = set(todo)
    rnd = 0
    while todo and rnd <= depth:
      nxt = set()
      for t in todo:
        if t[:2] in there:
          self.parsed.add(t[:2])
        if t not in deps:
          self.missing += 1
          continue
        self.nodes[t] = deps[t]
        for x in deps[t]:
          self.cycle |= x in seen
          if x not in seen:
            seen.add(x)
            nxt.add(x)
      todo = nxt
      self.rounds = rnd
      rnd += 1


def same(ctx, got, want, what):
  """got/want: {key: [labels]}"""
  ctx.eq(sorted(got), sorted(want), what + ' (targets)')
  for k in want:
    if len(set(want[k])) == len(want[k]):
      ctx.eq(sorted(got[k]), sorted(want[k]), '%s of %s' % (what, k))
    else:
      ctx.eq(set(got[k]), set(want[k]), '%s of %s' % (what, k))


def rows(out):
  r = {}
  for l in out.decode().splitlines():
    o = list(json.loads(l).values())
    if o[0] in r:
      raise ValueError('two rows of ' + o[0])
    r[o[0]] = o[1]
  return r


def run(ctx, c):
  w, kind, pkg, n, depth = c
  elaborate = len(n) % 2 == 1
  args, pat = pattern(kind, pkg, n)
  # Packages that are not part of the pattern are always evaluated.
  files = text(w, lambda p: elaborate or p[0] and kind != 'none' and not pkg[0])
  ws = project.write(ctx.scratch(), EXTS, files)
  flags = ['fjson'] + (['e'] if elaborate else [])
  if depth is not None:
    flags.append('r%s' % ('2147483647' if depth == 'all' else depth))
  d = {None: 0, 'all': 10**9}.get(depth, depth)
  what = '%s %s in %r' % (flags, args, files)

  def call(cmd):
    r = ctx.call('cli', ws, *flags, '--', cmd, *args)
    ctx.eq(r[0], b'0', 'status of %s %s' % (cmd, what))
    try:
      return rows(r[1])
    except ValueError as e:
      ctx.fail('%s %s: %s in %r' % (cmd, what, e, r[1]))

  g = Graph(w, pat, d)
  shown = label.Pattern('all') if d > 0 or kind == 'none' else pat
  same(ctx, call('depends-on'), {project.show(t): list(map(project.show, x)) for t, x in g.nodes.items() if shown.match(*t)},
       'depends-on ' + what)
  got = ctx.call('cli', ws, *flags, '--', 'list-packages', *args)
  ctx.eq(sorted(json.loads(l)['package'] for l in got[1].decode().splitlines()),
         sorted('%s//%s' % p for p in g.parsed), 'list-packages ' + what)
  al = {}
  for pk, _, rules in w:
    if pk in g.parsed:
      for k, nm, dd, _ in rules:
        if k == 'alias' and dd and shown.match(*dd[0][0]):
          al.setdefault(project.show(dd[0][0]), []).append(project.show(pk + (nm,)))
  same(ctx, call('aliased-by'), al, 'aliased-by ' + what)
  h = Graph(w, label.Pattern('recursive', '', ''), d or 10**9)
  rev = {}
  for t, x in h.nodes.items():
    for y in x:
      if kind == 'none' or pat.match(*y):
        rev.setdefault(project.show(y), []).append(project.show(t))
  same(ctx, call('has-dependents'), rev, 'has-dependents ' + what)
  if g.rounds > 1 or g.cycle or g.missing:
    ctx.hit(*(['rounds%d' % min(g.rounds, 5)] + ['missing'] * bool(g.missing) + ['cycle'] * g.cycle))


SUBS = [Sub('closure', case(), run, 7000, 150000)]


def prepare():
  return {'driver': build.driver()}
