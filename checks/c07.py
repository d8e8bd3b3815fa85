"""C07: patterns and visibility match exactly what they denote."""
from hypothesis import strategies as st

from checks.models import label
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C07'
RULE = ('Patterns (exact, short, :all, :*, target globs, recursive, with and without '
        'project) and visibility entries (public, private, package, subpackages, '
        'absolute or relative to a context) matched against targets and packages chosen '
        'near them (same, parent, child, sibling sharing a name prefix, other project), '
        'compared with a set-theoretic model. Non-trivial: matches and non-matches occur.')
ASSUMPTIONS = ['Visibility entries that look like package groups count as public (documented).']


@st.composite
def near(draw, pat):
  """Targets around a pattern."""
  kind, pr, p, n = pat
  out = []
  for _ in range(draw(st.integers(2, 10))):
    q = draw(st.sampled_from([p, p, p + '/foo' if p else 'foo', p + 'x' if p else 'x', p + '/a/b' if p else 'a/b',
                              p.rpartition('/')[0], 'foo', p + '.foo', p[:-1].rstrip('/'), draw(label.path)]))
    proj = pr if draw(st.integers(0, 4)) else draw(label.project)
    names = [n or 'x', draw(label.name), q.rsplit('/', 1)[-1] or 'r']
    if kind == 'glob':
      parts = n.split('*')
      fill = draw(st.lists(st.sampled_from(['', 'x', 'bar', '.', 'a/b', '*', '\udce4', 'a\nb', 'ä']), min_size=len(parts) - 1,
                           max_size=len(parts) - 1))
      g = parts[0] + ''.join(f + s for f, s in zip(fill, parts[1:]))
      names += [g, g, g + 'x', 'x' + g, g.replace('.', 'x'), g[:-1], g[1:], g.replace('(', '').replace('+', 'a')]
    else:
      names += [n + 'x', n[:-1] or 'y', 'x' + n]
    nm = draw(st.sampled_from([x for x in names if x and ':' not in x]))
    out.append((proj, q, nm))
  return out


@st.composite
def pattern_case(draw):
  text, pat = draw(label.patterns())
  return text, pat, draw(near(pat))


def check(ctx, text, pat, targets, r):
  if r[0] != b'1':
    ctx.fail('pattern %r is rejected' % text)
  m = label.Pattern(*pat)
  seen = set()
  for t, got in zip(targets, r[3:]):
    if t[2].startswith(':'):
      continue
    want = '%d%d' % (m.match(*t), m.match_package(*t[:2]))
    seen.add(want[0])
    if got.decode() != want:
      ctx.fail('%r (%s) on %s: matches target,package=%s expected %s' % (
          text, pat[0], t, got.decode(), want))
  ctx.eq(r[1], b'1' if pat[0] in ('recursive', 'all') else b'0', 'recursive? %r' % text)
  ctx.eq(r[2], b'1' if pat[0] == 'all' else b'0', 'match-all? %r' % text)
  ctx.label(pat[0])
  if len(seen) == 2 or pat[0] == 'all':
    ctx.hit()


def run_pattern(ctx, case):
  text, pat, targets = case
  r = ctx.call('pattern', text, '0', '', '', *[x for t in targets for x in t])
  check(ctx, text, pat, targets, r)


@st.composite
def vis_case(draw):
  cp, cpath = draw(label.project), draw(label.path)
  pr, p = draw(label.project), draw(label.path)
  k = draw(st.sampled_from(['public', 'private', 'pkg', 'sub', 'relpkg', 'relsub', 'group', 'localpkg', 'barepkg']))
  if k == 'public':
    text, pat = '//visibility:public', ('all', '', '', '')
  elif k == 'private':
    text, pat = '//visibility:private', ('package', cp, cpath, '')
  elif k == 'group':
    text, pat = draw(st.sampled_from(['//foo:group', ':friends', '//a/b', '@x//:g'])), ('all', '', '', '')
  elif k in ('pkg', 'sub'):
    w = '__pkg__' if k == 'pkg' else '__subpackages__'
    text = '%s//%s:%s' % (pr, p, w)
    pat = ('package' if k == 'pkg' else 'recursive', pr or cp, p, '')
  elif k == 'localpkg':
    text, pat = '//%s:__pkg__' % p, ('package', cp, p, '')
  else:
    w = '__subpackages__' if k == 'relsub' else '__pkg__'
    text = ('' if k == 'barepkg' else ':') + w
    pat = ('recursive' if k == 'relsub' else 'package', cp, cpath, '')
  return text, pat, (cp, cpath), draw(near(pat)) + [(cp, cpath, 'own')]


def run_vis(ctx, case):
  text, pat, (cp, cpath), targets = case
  r = ctx.call('pattern', text, '1', cp, cpath, *[x for t in targets for x in t])
  check(ctx, text, pat, targets, r)


SUBS = [
    Sub('patterns', pattern_case(), run_pattern, 12000, 300000),
    Sub('visibility', vis_case(), run_vis, 8000, 150000),
]


def prepare():
  return {'driver': build.driver()}
