"""C08: glob() selects exactly the files its patterns denote."""
import json
import os

from hypothesis import strategies as st

from vlib import build
from vlib.harness import Sub

PROPERTY = 'C08'
RULE = ('File sets over a small alphabet of confusable names (prefixes of each other, regex '
        'characters, dot files, non-ASCII) and include/exclude patterns derived from these files by '
        'starring parts and replacing or inserting ** components. The reference matches component '
        'by component. Checked on the predicates alone and end to end: a BUILD file with several '
        'globs, evaluated in a real directory tree. Non-trivial: a pattern with a star selects some '
        'but not all of the files.')
ASSUMPTIONS = ['** is used as whole path component only (bazel rejects anything else).',
               'No directory is reachable in two ways below a package (there are links to directories elsewhere, but only one to each).',
               'Files of nested packages are not set apart: bant documents no such thing.']

SEG = ['a', 'b', 'ab', 'abc', 'x', 'foo', 'src', 'a.b', 'c.', 'a+b', 'ä', 'l\udce4', 'n\nl']
FILE = ['a', 'b', 'ab', 'foo.h', 'foo.cc', 'xfoo.h', 'foo_h', 'a.h', 'a+b.h', '.h', 'b.cc', 'foo.hh', 'aab.h', 'ä.h',
        '(x).h', 'fo', '\udce4.h', 'a\udcff', 'n\n.h']

seg = st.sampled_from(SEG)
fil = st.sampled_from(FILE)
rel = st.tuples(st.lists(seg, max_size=4), fil).map(lambda t: '/'.join(t[0] + [t[1]]))


def seg_match(p, s):
  """* is any string."""
  parts = p.split('*')
  if len(parts) == 1:
    return p == s
  if not s.startswith(parts[0]):
    return False
  pos = len(parts[0])
  for q in parts[1:-1]:
    i = s.find(q, pos)
    if i < 0:
      return False
    pos = i + len(q)
  return len(s) - pos >= len(parts[-1]) and s.endswith(parts[-1])


def match(pat, path):
  p, s = pat.split('/'), path.split('/')
  reach = {0}  # positions in path reachable before pattern component
  for i, c in enumerate(p):
    if c == '**':
      if not reach:
        return False
      reach = set(range(min(reach), len(s) + 1))
      if i == len(p) - 1:  # files, at any depth
        return min(reach) < len(s)
    else:
      reach = {r + 1 for r in reach if r < len(s) and seg_match(c, s[r])}
  return len(s) in reach


def consistent(paths):
  """No file is a directory of another one."""
  dirs = {'/'.join(f.split('/')[:i]) for f in paths for i in range(1, f.count('/') + 1)}
  return sorted({f for f in paths if f not in dirs})


@st.composite
def pattern(draw, paths):
  base = draw(st.sampled_from(paths)) if paths and draw(st.integers(0, 5)) else draw(rel)
  segs = base.split('/')
  out = []
  i = 0
  while i < len(segs):
    k = draw(st.integers(0, 9))
    c = segs[i]
    last = i == len(segs) - 1
    if k == 0:
      out += ['**', c]
    elif k == 1 and not last:
      out.append('**')
      i = draw(st.integers(i, len(segs) - 2))
    elif k == 2:
      out.append('*')
    elif k in (3, 4, 5):
      a = draw(st.integers(0, len(c)))
      b = draw(st.integers(a, len(c)))
      out.append(c[:a] + '*' + c[b:])
    elif k == 6:
      a = draw(st.integers(0, len(c)))
      out.append('*' + c[a:] + '*')
    else:
      out.append(c)
    i += 1
  if draw(st.integers(0, 9)) == 0:
    out = out[:-1] + ['**']
  out = ['*' if set(c) == {'*'} and c != '**' else c for c in out]
  return '/'.join(out)


@st.composite
def case(draw):
  paths = consistent(draw(st.lists(rel, max_size=10)))
  pats = st.lists(pattern(paths), max_size=3)
  return paths, draw(pats), draw(pats) if draw(st.booleans()) else []


def want(paths, inc, exc):
  return [p for p in paths if any(match(i, p) for i in inc) and not any(match(e, p) for e in exc)]


def nontrivial(ctx, paths, inc, exc, sel):
  if 0 < len(sel) < len(paths) and any('*' in p for p in inc + exc):
    ctx.hit()
    if any('**' in p for p in inc):
      ctx.label('doublestar')


def run_predicates(ctx, c):
  paths, inc, exc = c
  dirs = sorted({'/'.join(f.split('/')[:i]) for f in paths for i in range(1, f.count('/') + 1)})
  r = ctx.call('glob', str(len(inc)), *inc, str(len(exc)), *exc, *paths, *dirs)
  bits = [x.decode() for x in r]
  sel = want(paths, inc, exc)
  got = [p for p, b in zip(paths, bits) if b[0] == '1']
  ctx.eq(got, sel, 'files of glob(%s, exclude=%s)' % (inc, exc))
  pruned = [d for d, b in zip(dirs, bits[len(paths):]) if b[1] == '0']
  for d in pruned:
    lost = [p for p in sel if p.startswith(d + '/')]
    if lost:
      ctx.fail('directory %s is not searched although %s matches glob(%s, exclude=%s)' % (d, lost, inc, exc))
  nontrivial(ctx, paths, inc, exc, sel)


@st.composite
def tree(draw):
  pkg = draw(st.sampled_from(['', '', 'p', 'foo/bar', 'a', 'ä']))
  inside = consistent(draw(st.lists(rel, max_size=10)))
  outside = consistent(draw(st.lists(rel, max_size=3)))
  globs = []
  for _ in range(draw(st.integers(1, 3))):
    inc = draw(st.lists(pattern(inside), max_size=3))
    exc = draw(st.lists(pattern(inside), max_size=2))
    globs.append((draw(st.sampled_from(['pos', 'kw', 'pospos', 'swap', 'extra'])), inc, exc))
  emptydirs = draw(st.lists(st.lists(seg, min_size=1, max_size=3).map('/'.join), max_size=2))
  links = draw(st.booleans())
  if pkg and draw(st.integers(0, 2)) == 0:  # Directories elsewhere that have a link in the package.
    links = draw(st.lists(st.tuples(st.lists(seg, min_size=1, max_size=2).map('/'.join), st.lists(rel, min_size=1, max_size=3).map(consistent)),
                          min_size=1, max_size=2))
  return pkg, inside, outside, globs, emptydirs, links


def q(x):
  return json.dumps(x, ensure_ascii=False)


def spell(style, inc, exc):
  i, e = q(inc), q(exc)
  return {'pos': 'glob(%s, exclude = %s)' % (i, e), 'kw': 'glob(include = %s, exclude = %s)' % (i, e),
          'pospos': 'glob(%s, %s)' % (i, e), 'swap': 'glob(exclude = %s, include = %s)' % (e, i),
          'extra': 'glob(allow_empty = True, include = %s, exclude = %s, exclude_directories = 1)' % (i, e)}[style]


def run_tree(ctx, c):
  pkg, inside, outside, globs, emptydirs, links = c
  root = ctx.scratch()
  base = os.path.join(root, pkg)
  os.makedirs(base, exist_ok=True)
  paths = list(inside)
  for i, f in enumerate(inside):
    p = os.path.join(base, f)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if links is True and i % 3 == 1:
      os.symlink('/dev/null', p)
    else:
      open(p, 'w').close()
  for d in emptydirs:
    if not any(os.path.lexists(os.path.join(base, *d.split("/")[:k])) for k in range(1, 5)):
      os.makedirs(os.path.join(base, d), exist_ok=True)
  if pkg:
    for f in outside:
      p = os.path.join(root, 'a' if pkg != 'a' else 'b', f)
      os.makedirs(os.path.dirname(p), exist_ok=True)
      if not os.path.exists(p):
        open(p, 'w').close()
  if isinstance(links, list):
    for i, (ln, fs) in enumerate(links):
      if any(os.path.lexists(os.path.join(base, '/'.join(ln.split('/')[:k + 1]))) for k in range(4)):
        continue
      real = os.path.join(root, 'real files', str(i))
      for f in fs:
        os.makedirs(os.path.dirname(os.path.join(real, f)), exist_ok=True)
        open(os.path.join(real, f), 'w').close()
      os.makedirs(os.path.dirname(os.path.join(base, ln)), exist_ok=True)
      os.symlink(real, os.path.join(base, ln))
      paths += [ln + '/' + f for f in fs]
  # There is no way to write a line break (escapes are kept as they are).
  globs = [(s, *([p.replace('\n', '*') for p in ps] for ps in g)) for s, *g in globs]
  text = ''.join('x%d = %s\n' % (i, spell(*g)) for i, g in enumerate(globs))
  build_file = os.path.join(pkg, 'BUILD.bazel')
  open(os.path.join(root, build_file), 'w', errors='surrogateescape').write(text)
  paths.append('BUILD.bazel')
  r = ctx.call('elaborate', root, build_file, '', pkg)
  ctx.eq(r[0], b'0', 'parsing %s: %s' % (text, r[1]))
  tree_ = json.loads(r[2])
  for (style, inc, exc), st_ in zip(globs, tree_[2:]):
    val = st_[2]
    if val[0] != 'list':
      ctx.fail('%s is not evaluated: %s' % (spell(style, inc, exc), val))
    got = [x[1].encode('latin-1').decode('utf-8', 'surrogateescape') for x in val[2:]]
    sel = want(paths, inc, exc)
    ctx.eq(sorted(got), sorted(sel), '%s in package %r' % (spell(style, inc, exc), pkg))
    nontrivial(ctx, paths, inc, exc, sel)


SUBS = [
    Sub('predicates', case(), run_predicates, 12000, 400000),
    Sub('tree', tree(), run_tree, 5000, 60000),
]


def prepare():
  return {'driver': build.driver()}
