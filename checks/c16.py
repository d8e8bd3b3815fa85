"""C16: dwyu adds exactly the missing, permitted dependency for each include."""
from checks.models import dwyu
from checks.models.project import show
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C16'
RULE = ('The workspaces of C15: libraries of all kinds in main and external project with visibility (own and default of the package, '
        'package and recursive entries), testonly, deprecation, aliases and shared headers. For each target the model says what '
        'alternatives there are for each include; the proposed additions are compared with those that have exactly one. '
        'A further sub-check has pairs of packages with libraries and headers of the same names. Non-trivial: something is added, or some include has only providers that are not permitted or several alternatives.')
ASSUMPTIONS = ['A rule without any visibility counts as visible.', 'Package groups count as public (documented).']


def run(ctx, c):
  m, r = dwyu.start(ctx, c)
  for t in r.targets:
    needs, bad, ambiguous = m.target(t, r.pkgs, r.heads)
    if ambiguous:
      continue
    deps = {d[1] for d in m.deps[t]}
    added = [x for op, u, _, x in r.edits if u == t and op == 'add']
    where = 'for %s: %s' % (show(t), r.what)
    ctx.eq(len(added), len(set(added)), 'number of different additions ' + where)
    may = set().union(*[n[0] for n in needs]) if needs else set()
    for x in added:
      if x == t or x in deps:
        ctx.fail('%s is already there %s' % (show(x), where))
      if x not in may:
        ctx.fail('%s provides nothing that is included or is not permitted %s' % (show(x), where))
    want, open_ = set(), []
    for ok, everyone, s in needs:
      if ok and not ok & deps:
        if len(ok) == 1:
          want |= ok
        else:
          open_.append((ok, s))
    if not want <= set(added):
      ctx.fail('only adds %s, expected %s %s' % (list(map(show, added)), list(map(show, want)), where))
    if dwyu.simple(needs):
      ctx.eq(sorted(map(show, added)), sorted(map(show, want)), 'additions ' + where)
      for ok, s in open_:
        lines = set(r.info.decode().splitlines())
        if not {'\t' + show(x) for x in ok} <= lines:
          ctx.fail('alternatives %s for %s are not reported %s' % (list(map(show, ok)), s, where))
    kinds = ['add'] * bool(added) + ['choice'] * bool(open_) + ['forbidden'] * any(n[1] - n[0] for n in needs)
    if kinds:
      ctx.hit(*kinds)


SUBS = [Sub('additions', dwyu.case(), run, 6000, 150000),
        Sub('twins', dwyu.twins(), run, 6000, 100000),
        Sub('shared', dwyu.shared(), run, 4000, 60000)]


def prepare():
  return {'driver': build.driver()}
