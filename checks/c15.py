"""C15: dwyu never proposes to remove a dependency that is needed."""
from checks.models import dwyu
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C15'
RULE = ('Workspaces with C++ libraries, binaries, tests, aliases (chains, loops, of other packages), protobuf and gRPC libraries, rules of unknown '
        'kind, in main and external project, with sources on disk (some missing, some only generated, some in expressions that can not or '
        'only partially be evaluated) that include headers by any path they are provided under, relative to the package, own and unknown ones. '
        'Each proposed removal is judged with the model: everything is known, and each included header is provided by something '
        'that stays or is added; each dependency that is provably unused must be proposed. A further sub-check has pairs of packages with libraries and headers of the same names. Non-trivial: a target has a dependency that is removed and one that is needed, '
        'or unused ones that have to stay.')
ASSUMPTIONS = ['Names of header files are unique in the project unless libraries share a header.', 'A cc_library() that only has textual headers may or may not count as always linked.']


def run(ctx, c):
  m, r = dwyu.start(ctx, c)
  keep = c[-1]
  for t in r.targets:
    needs, bad, ambiguous = m.target(t, r.pkgs, r.heads)
    if ambiguous:
      continue
    deps = m.deps[t]
    gone = {x for op, u, _, x in r.edits if u == t and op == 'remove'}
    left = {d[1] for d in deps} - gone | {x for op, u, _, x in r.edits if u == t and op == 'add'}
    marked = set() if keep else m.keeps(t)
    provided = set().union(*[n[1] for n in needs]) if needs else set()
    for x in gone:
      where = 'removal of %s from %s: %s' % (project_show(x), project_show(t), r.what)
      if bad:
        ctx.fail('not all sources and includes are known, ' + where)
      if m.removable(x, r.pkgs) is False:
        ctx.fail('always linked or unknown, ' + where)
      if x in marked:
        ctx.fail('marked with a comment, ' + where)
      for ok, everyone, s in needs:
        if x in everyone and not (left & ok):
          ctx.fail('includes %s, %s' % (s, where))
    stay = 0
    for d in deps:
      x = d[1]
      if x in provided or x in gone:
        continue
      if not bad and x not in marked and m.removable(x, r.pkgs):
        ctx.fail('%s is not needed by %s, but not removed (edits %s): %s' % (project_show(x), project_show(t), r.edits, r.what))
      stay += 1
    if gone and (left & provided):
      ctx.hit('removed')
    if stay:
      ctx.hit('unknown' if bad else 'stays')


def project_show(t):
  return dwyu.project.show(t)


SUBS = [Sub('removals', dwyu.case(), run, 6000, 150000),
        Sub('twins', dwyu.twins(), run, 6000, 100000),
        Sub('shared', dwyu.shared(), run, 4000, 60000)]


def prepare():
  return {'driver': build.driver()}
