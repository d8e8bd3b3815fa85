"""C09: every package of the project is found exactly once, whatever the tree."""
import csv
import io
import os
import subprocess

from hypothesis import strategies as st

from vlib import build
from vlib.harness import Sub

PROPERTY = 'C09'
RULE = ('Directory trees up to depth 4 with BUILD and BUILD.bazel files, both, neither, links to files, dangling links, '
        'directories called BUILD, hidden and special directories, links to directories above, below and beside (loops), '
        'and names that are prefixes of each other; listed with recursive and single package patterns in the main and an external project. '
        'The reference walks the description of the tree. Non-trivial: the tree has a link to a directory or a '
        'special name and the pattern selects some of the packages. One part runs the executable as an unprivileged '
        'user with unreadable directories and files.')
ASSUMPTIONS = ['Directory and file names have no line breaks.', 'Nested workspaces are ordinary directories (as in bant).']

DIRS = ['a', 'b', 'ab', 'a b', 'foo', 'foobar', 'c', '.git', '.cache', '_tmp', '.hidden', '..x', 'ä', 'bazel-x', 'BUILD', 'node', '-r',
        'BUILD.bazel', '_tmp2', '.gitx', 'x.git', 'foo_tmp', 'a.cache', '.cache2']
SKIP = {'.git', '.cache', '_tmp'}


@st.composite
def dirtree(draw, depth=0):
  """{'build': [...], 'links': [...], 'dirs': {name: tree}}"""
  t = {'build': draw(st.sampled_from([(), (), ('BUILD',), ('BUILD.bazel',), ('BUILD', 'BUILD.bazel'), ('BUILD.bazel', 'BUILD'), ('BUILD@',), ('BUILD.bazel@',),
                                      ('build', 'BUILD.txt', 'xBUILD', 'BUILD.bazel~'), ('BUILD!',), ('BUILD!', 'BUILD.bazel')])),
       'links': draw(st.lists(st.tuples(st.sampled_from(['z', 'l', 'A', 'bazel-out', '0', 'BUILD']),
                                        st.sampled_from(['.', '..', '../..', 'a', 'b', '../a', '../b', '/nonexistent'])), max_size=1)),
       'dirs': {}}
  if depth < 3:
    for n in draw(st.lists(st.sampled_from(DIRS), max_size=3 if depth < 2 else 2, unique=True)):
      t['dirs'][n] = draw(dirtree(depth + 1))
  return t


def make(path, t):
  os.makedirs(path, exist_ok=True)
  for n, sub in t['dirs'].items():
    make(os.path.join(path, n), sub)
  for b in t['build']:
    p = os.path.join(path, b.rstrip('@!'))
    if os.path.lexists(p):
      continue
    if b.endswith('@'):
      with open(p + '.real', 'w') as f:
        f.write('x(name = "t")\n')
      os.symlink(os.path.basename(p) + '.real', p)
    elif b.endswith('!'):
      os.symlink('/nonexistent/file', p)
    else:
      with open(p, 'w') as f:
        f.write('x(name = "t")\n')
  for n, to in t['links']:
    p = os.path.join(path, n)
    if not os.path.lexists(p):
      os.symlink(to, p)


def packages(t, path=''):
  """[(package path, file)] in a walk without links to directories."""
  files = [b.rstrip('@') for b in t['build'] if not b.endswith('!')]
  files = [b for b in files if b in ('BUILD', 'BUILD.bazel') and b not in t['dirs']]
  out = []
  if files:
    f = 'BUILD.bazel' if 'BUILD.bazel' in files else 'BUILD'
    out.append((path, f))
  for n, s in t['dirs'].items():
    if n not in SKIP:
      out += packages(s, path + '/' + n if path else n)
  return out


def odd(t):
  return bool(t['links']) or any(n[0] in '._B' for n in t['dirs']) or len(t['build']) > 1 or any(odd(s) for s in t['dirs'].values())


def all_dirs(t, path=''):
  out = [path]
  for n, s in t['dirs'].items():
    out += all_dirs(s, path + '/' + n if path else n)
  return out


@st.composite
def case(draw):
  t = draw(dirtree())
  ds = all_dirs(t)
  d = draw(st.sampled_from(ds + ['nope']))
  kind = draw(st.sampled_from(['rec', 'rec', 'all', 'one', 'none']))
  return t, d, kind, draw(st.booleans()), draw(st.sampled_from(['list-packages', 'list-packages', 'list-targets']))


def select(t, d, kind):
  out = []
  for p, f in packages(t):
    if kind == 'none' or (kind == 'rec' and (d == '' or p == d or p.startswith(d + '/'))) or (kind in ('all', 'one') and p == d):
      out.append((p, f))
  return out


def in_skipped(d):
  return any(c in SKIP for c in d.split('/'))


def run(ctx, c):
  t, d, kind, external, cmd = c
  top = ctx.scratch()
  ws = os.path.join(top, 'ws')
  os.makedirs(ws)
  proj, where = '', ''
  if external:
    os.makedirs(os.path.join(top, 'out/execroot/main/bazel-out'))
    os.symlink('../out/execroot/main/bazel-out', os.path.join(ws, 'bazel-out'))
    make(os.path.join(top, 'out/external/ext~1.0'), t)
    proj, where = '@ext', 'bazel-out/../../../external/ext~1.0'
    if kind == 'none':
      kind = 'rec'
  else:
    make(ws, t)
  with open(os.path.join(ws, 'MODULE.bazel'), 'w') as f:
    f.write('bazel_dep(name = "ext", version = "1.0")\n')
  if kind == 'none':
    args = []
  elif kind == 'rec':
    args = ['%s//%s...' % (proj, d + '/' if d else '')]
  elif kind == 'all':
    args = ['%s//%s:all' % (proj, d)]
  else:
    args = ['%s//%s:t' % (proj, d)]
  want = select(t, d if kind != 'none' else '', kind)
  if in_skipped(d) and kind != 'none':  # explicitly asked for
    sub = t
    for n in d.split('/'):
      sub = sub['dirs'][n]
    want = [(d + '/' + p if p else d, f) for p, f in packages(sub)]
    want = [w for w in want if kind == 'rec' or w[0] == d]
  st_, out, info, cerr = ctx.call('cli', ws, 'fcsv', '--', cmd, *args)
  ctx.eq(st_, b'0', 'exit status')
  rows = list(csv.reader(io.StringIO(out.decode())))[1:]
  if cmd == 'list-packages':
    got = [(os.path.normpath(a), b) for a, b in rows]
    exp = [(os.path.normpath(os.path.join(where, p, f)), proj + '//' + p) for p, f in want]
  else:
    got = [(os.path.normpath(a.split(':')[0]), b) for a, _, b in rows]
    exp = [(os.path.normpath(os.path.join(where, p, f)), '%s//%s%s' % (proj, p, '' if p.split('/')[-1] == 't' else ':t')) for p, f in want]
  ctx.eq(sorted(got), sorted(exp), '%s %s of %r' % (cmd, args, t))
  if not want and b'did not match' not in info:
    n_broken = out.count(b'x')
    if b'Could not read' not in cerr:
      ctx.fail('nothing found but no message for %s: %r' % (args, info))
  if want and odd(t):
    ctx.hit()


# -- unprivileged
@st.composite
def locked(draw):
  t = draw(dirtree())
  ds = [x for x in all_dirs(t) if x]
  return t, draw(st.lists(st.sampled_from(ds), max_size=2)) if ds else [], draw(st.integers(0, 3))


def run_locked(ctx, c):
  t, lock, lockfiles = c
  ws = ctx.scratch()
  os.chmod(os.path.dirname(ws), 0o755)
  make(ws, t)
  open(os.path.join(ws, 'MODULE.bazel'), 'w').close()
  for i, (p, f) in enumerate(packages(t)):
    if lockfiles and i % 3 == lockfiles - 1:
      for b in ('BUILD', 'BUILD.bazel'):
        if os.path.isfile(os.path.join(ws, p, b)):
          os.chmod(os.path.join(ws, p, b), 0o000)
  for d in lock:
    os.chmod(os.path.join(ws, d), 0o000)
  want = []
  for i, (p, f) in enumerate(packages(t)):
    if lockfiles and i % 3 == lockfiles - 1:
      continue
    if any(p == d or p.startswith(d + '/') for d in lock):
      continue
    want.append((os.path.normpath(os.path.join(p, f)), '//' + p))
  try:
    r = subprocess.run([ctx.env['bant'], '-f', 'csv', 'list-packages'], cwd=ws, user=65534, group=65534, extra_groups=[],
                       capture_output=True, timeout=60, env={'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent'})
  finally:
    for d in lock:
      os.chmod(os.path.join(ws, d), 0o755)
  ctx.eq(r.returncode, 0, 'status; %r' % r.stderr)
  got = [(os.path.normpath(a), b) for a, b in list(csv.reader(io.StringIO(r.stdout.decode())))[1:]]
  ctx.eq(sorted(got), sorted(want), 'packages of %r without %s' % (t, lock))
  if want and (lock or lockfiles):
    ctx.hit()


SUBS = [
    Sub('trees', case(), run, 9000, 150000),
    Sub('unprivileged', locked(), run_locked, 1000, 20000),
]


def prepare():
  return {'driver': build.driver(), 'bant': build.bant()}
