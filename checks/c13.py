"""C13: fuzzy header lookup returns only a best common path suffix."""
import json
import os

from hypothesis import strategies as st

from checks.models import label
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C13'
RULE = ('Header sets over confusable path components (prefixes and suffixes of each other), provided by '
        'libraries in generated BUILD files; lookup keys derived from the headers by cutting, extending and '
        'changing components or single characters. The reference compares component lists with every '
        'header. Non-trivial: the key is not provided verbatim but shares components with some header.')
ASSUMPTIONS = ['Ties between equally good headers may be resolved either way.']

COMP = ['a', 'b', 'ab', 'ba', 'foo', 'xfoo', 'foox', 'bar', 'x', 'a.b', 'ä']
NAME = ['a.h', 'b.h', 'ab.h', 'ba.h', 'xa.h', 'a.hh', 'a', '.h', 'ä.h', 'z.h']
header = st.tuples(st.lists(st.sampled_from(COMP), max_size=4), st.sampled_from(NAME)).map(
    lambda t: '/'.join(t[0] + [t[1]]))


@st.composite
def case(draw):
  hdrs = draw(st.lists(header, min_size=0, max_size=8, unique=True))
  libs = [(draw(st.sampled_from(['', 'p', 'q/p'])), draw(st.lists(st.sampled_from(hdrs), max_size=5)))
          for _ in range(draw(st.integers(0, 4)))] if hdrs else []
  keys = []
  for _ in range(draw(st.integers(1, 8))):
    base = draw(st.sampled_from(hdrs)) if hdrs and draw(st.integers(0, 6)) else draw(header)
    parts = base.split('/')
    for _ in range(draw(st.integers(0, 2))):
      k = draw(st.integers(0, 7))
      if k == 0 and len(parts) > 1:
        parts = parts[1:]
      elif k == 1:
        parts = [draw(st.sampled_from(COMP))] + parts
      elif k == 2:
        i = draw(st.integers(0, len(parts) - 1))
        parts = parts[:i] + [draw(st.sampled_from(COMP if i + 1 < len(parts) else NAME))] + parts[i + 1:]
      elif k == 3 and parts[0]:
        parts = [parts[0][1:]] + parts[1:]
      elif k == 4:
        parts = [draw(st.sampled_from(['x', 'b', '~'])) + parts[0]] + parts[1:]
      elif k == 5 and len(parts) > 1:
        i = draw(st.integers(0, len(parts) - 2))
        parts = parts[:i] + parts[i + 1:]
      elif k == 6:
        i = draw(st.integers(0, len(parts) - 1))
        parts = parts[:i] + [draw(st.sampled_from(COMP))] + parts[i:]
    keys.append(('/'.join(parts), draw(st.integers(1, 4))))
  return libs, keys


def common(a, b):
  n = 0
  for x, y in zip(a.split('/')[::-1], b.split('/')[::-1]):
    if x != y:
      break
    n += 1
  return n


def run(ctx, c):
  libs, keys = c
  root = ctx.scratch()
  text = {}
  provided = {}
  for i, (pkg, hdrs) in enumerate(libs):
    pre = pkg + '/' if pkg else ''
    text.setdefault(pkg, []).append('cc_library(name = "l%d", hdrs = %s)\n' % (i, json.dumps(hdrs, ensure_ascii=False)))
    for h in hdrs:
      provided.setdefault(pre + h, set()).add(label.canonical('', pkg, 'l%d' % i))
  args = []
  for pkg, t in text.items():
    os.makedirs(os.path.join(root, pkg), exist_ok=True)
    open(os.path.join(root, pkg, 'BUILD'), 'w').write(''.join(t))
    args += [os.path.join(pkg, 'BUILD'), pkg]
  q = [x for k, m in keys for x in (k, str(m))]
  r = ctx.call('suffix', root, str(len(args) // 2), *args, *q)
  for (k, m), ans in zip(keys, r):
    f = ans.decode().split('\t')
    what = 'lookup of %r (at least %d) in %s' % (k, m, sorted(provided))
    best = max([common(k, h) for h in provided], default=0)
    if k in provided:
      ctx.eq(f[:3], ['1', k, '0'], what)
    elif best < m:
      ctx.eq(f, ['0'], what)
    else:
      ctx.hit()
      if f[0] != '1':
        ctx.fail('%s finds nothing, but %d components agree' % (what, best))
      if f[1] not in provided:
        ctx.fail('%s gives %r that nobody provides' % (what, f[1]))
      ctx.eq((common(k, f[1]), int(f[2])), (best, best), what + ' -> ' + f[1])
    if f[0] == '1':
      ctx.eq(sorted(f[3:]), sorted(provided[f[1]]), what + ' -> ' + f[1])


SUBS = [Sub('lookup', case(), run, 14000, 300000)]


def prepare():
  return {'driver': build.driver()}
