"""C17: applying dwyu output leaves nothing to do, and the exit status tells so."""
from checks.models import dwyu
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C17'
RULE = ('The workspaces of C15. The output is parsed as shell commands for buildozer, applied to the description of the workspace, which is '
        'written again, until nothing is proposed. The second run must be quiet unless the edits changed which packages '
        'are known. The exit status and the commands (kind, target of the pattern, label as written or shortest) are '
        'checked each time. A further sub-check has pairs of packages with libraries and headers of the same names. Non-trivial: the first run proposes something.')
ASSUMPTIONS = ['Edits are applied as buildozer documents: remove deletes the label as written, add appends.']


def run(ctx, c):
  w, src, kind, pkg, n, keep = c
  m, r = dwyu.start(ctx, c)
  first = r.edits
  for i in range(8):
    ctx.eq(r.status, b'3' if r.out else b'0', 'status with output %r of %s' % (r.out, r.what))
    if not r.edits:
      break
    if i and before == r.pkgs:
      ctx.fail('proposed after applying %s: %s in %s' % (applied, r.edits, r.what))
    before, applied = r.pkgs, r.edits
    m.apply(r.edits)
    r = dwyu.Run(ctx, m, kind, pkg, n, keep)
  else:
    # Possible: a header is looked up by the end of its path, the edit makes the packages known in which
    # it is found by its path, the next edit makes them unknown again.
    ctx.label('packages known change each time')
    return
  if first:
    ctx.hit('edits%d' % min(len(first), 5), *['rounds%d' % i] * (i > 1))


SUBS = [Sub('fixpoint', dwyu.case(), run, 4000, 100000),
        Sub('twins', dwyu.twins(), run, 6000, 100000),
        Sub('shared', dwyu.shared(), run, 4000, 60000)]


def prepare():
  return {'driver': build.driver()}
