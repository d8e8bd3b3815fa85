"""C06: labels resolve to one canonical target and print back equivalently."""
from hypothesis import strategies as st

from checks.models import label
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C06'
RULE = ('Labels are generated as (project, package, name) in one of thirteen spellings in '
        'a generated context package and must resolve to that triple, print in the '
        'canonical form given by the model, and read back from it; pairs of labels print '
        'equal iff they denote the same target; arbitrary label-like text is rejected or '
        'round-trips; file names of a package. Non-trivial: spelled differently from the '
        'canonical form.')
ASSUMPTIONS = ['Labels with empty names and relative labels with a slash are not specified.',
               'A version without a project name (@~1) is not specified.']


def parse(ctx, text, cp='', cpath='', rp='', rpath=''):
  r = [x.decode('utf-8', 'surrogateescape') for x in ctx.call('target', text, cp, cpath, rp, rpath)]
  return None if r[0] == '0' else ((r[1], r[2], r[3]), r[4], r[5])


def run_spelled(ctx, case):
  (text, cp, cpath, want), (op, opath) = case
  r = parse(ctx, text, cp, cpath, op, opath)
  if r is None:
    ctx.fail('label %r in %s//%s is rejected' % (text, cp, cpath))
  t, full, rel = r
  ctx.eq(t, want, 'label %r in %s//%s' % (text, cp, cpath))
  canon = label.canonical(*want)
  ctx.eq(full, canon, 'printed form of %r (%s)' % (text, want))
  ctx.eq(rel, ':' + want[2] if (op, opath) == want[:2] else '@' * (bool(op) and not want[0]) + canon,
         'form of %s relative to %s//%s' % (want, op, opath))
  back = parse(ctx, full, '', '', *want[:2])
  ctx.eq(back and back[0], want, 'reading back %r' % full)
  ctx.eq(back[2], ':' + want[2], '%s relative to own package' % (want,))
  back = parse(ctx, rel, op, opath)
  ctx.eq(back and back[0], want, 'reading back %r in %s//%s' % (rel, op, opath))
  if text != canon:
    ctx.hit()


def run_pair(ctx, case):
  a, b = case
  ra, rb = parse(ctx, *a[:3]), parse(ctx, *b[:3])
  if ra is None or rb is None:
    ctx.fail('rejected: %s' % (case,))
  if (ra[1] == rb[1]) != (a[3] == b[3]):
    ctx.fail('%s prints %s, %s prints %s' % (a, ra[1], b, rb[1]))
  if ra[1] == rb[1] and a[0] != b[0]:
    ctx.hit()


loose = st.lists(st.sampled_from(['//', '/', ':', '@', 'foo', 'a', '~', '.', '-', '...', ' ', 'ab', '@x', '*', 'ä',
                                  '//foo', ':b']), max_size=6).map(''.join)


def run_loose(ctx, case):
  text, cp, cpath = case
  r = parse(ctx, text, cp, cpath)
  if text.count(':') > 1:
    ctx.eq(r, None, 'label with several colons %r' % text)
  if r is None:
    ctx.label('rejected')
    return
  t, full, _ = r
  if '//' in t[1] or t[1].startswith('/') or t[1].endswith('/'):
    ctx.fail('label %r gives package path %r' % (text, t[1]))
  if not t[2] or t[0] == '@':  # @~1.2//x has a version, but no project name
    return
  back = parse(ctx, full)
  ctx.eq(back and back[0], t, 'reading back %r, printed for %r' % (full, text))
  ctx.hit()


def run_files(ctx, case):
  pr, p, n, colon = case
  f = (':' if colon else '') + n
  r = [x.decode() for x in ctx.call('pkgfiles', pr, p, f)]
  ctx.eq(r[0], p + '/' + n if p else n, 'file %r of %s//%s' % (f, pr, p))
  ctx.eq(r[1:], ['1', label.canonical(pr, p, n), n], 'target %r of package' % f)
  q = [x.decode() for x in ctx.call('package', '%s//%s%s' % (pr, p, ':x' if colon else ''))]
  ctx.eq(q, ['1', pr, p, pr + '//' + p], 'package %s//%s' % (pr, p))
  if p:
    ctx.hit()


same = st.sampled_from(['absl', 'foo', 'bar'])


@st.composite
def clash(draw):
  """Labels whose parts are easily confused."""
  pr = draw(st.sampled_from(['', '@foo', '@absl']))
  p = draw(st.sampled_from(['', 'foo', 'foo/foo', 'foo/bar', 'absl']))
  n = draw(st.sampled_from(['foo', 'bar', 'absl', 'foo/bar']))
  forms = ['%s//%s:%s' % (pr, p, n)]
  if p and n == p.rsplit('/', 1)[-1]:
    forms.append('%s//%s' % (pr, p))
  if not p and pr and n == pr[1:]:
    forms.append(pr)
  return draw(st.sampled_from(forms)), '', '', (pr, p, n)


SUBS = [
    Sub('spelled', st.tuples(label.spelled(), st.tuples(label.project, label.path)), run_spelled, 16000, 400000),
    Sub('own_package', label.spelled().map(lambda s: (s, s[3][:2])), run_spelled, 6000, 100000),
    Sub('pairs', st.tuples(clash(), clash()), run_pair, 4000, 60000),
    Sub('loose', st.tuples(loose, label.project, label.path), run_loose, 16000, 300000),
    Sub('files', st.tuples(label.project, label.path, label.name, st.booleans()), run_files, 3000, 40000),
]


def prepare():
  return {'driver': build.driver()}
