"""C22: the file system pre-warm cache never changes any result."""
import os
import re
import shutil

from hypothesis import strategies as st

from checks import c21
from checks.models import project
from checks.c10 import pattern
from vlib import build, proto
from vlib.harness import Sub

PROPERTY = 'C22'
RULE = ('Histories on a generated workspace: runs of commands with varying options and working directories, each with the cache and without it, between them edits of the '
        'project (files removed, changed, added, directories renamed) and of the cache (truncated, overwritten with arbitrary bytes or with lines naming '
        'other, missing or odd files, taken from another run, replaced by a directory, not writable; cache directory missing, a file, a link loop). Status, '
        'standard output and messages must be those of the run without cache, '
        'the project untouched, and the cache file list once each what the run opened (seen with strace). '
        'The same with a build that detects data races. Non-trivial: a run that reads a cache file.')
ASSUMPTIONS = ['The content of the cache file is a list of lines, F for files and D for directories.',
               'Cache files that block when they are opened (named pipes) are not considered.']

COMMANDS = ['print', 'list-packages', 'list-targets', 'depends-on', 'has-dependents', 'lib-headers', 'dwyu', 'canonicalize', 'compilation-db', 'workspace', 'aliased-by']
OPTS = ['-e', '-q', '-v', '-r', '-fjson', '-E', '-k', '-vq']

LINE = st.one_of(
    st.tuples(st.sampled_from('FDFDX '), st.sampled_from(['', '.', '..', '/', 'a', 'a/BUILD', 'gone/BUILD', './', 'x' * 5000, 'loop', 'loop/x', 'pipe', '/dev/null', '/proc/self/fd',
                                                          'bazel-out', '//a', 'a\0b', 'BUILD', 'WORKSPACE', 'MODULE.bazel', '../ws', 'a b', '\xff'])).map(''.join),
    st.text('FD/.a\r\0 \xe4', max_size=6))
CORRUPT = st.one_of(
    st.tuples(st.just('truncate'), st.integers(0, 400)),
    st.tuples(st.just('lines'), st.lists(LINE, max_size=8), st.sampled_from(['\n', '\n', '\n', '\r\n', '']), st.integers(1, 300)),
    st.tuples(st.just('bytes'), st.binary(max_size=60)),
    st.tuples(st.just('append'), st.binary(max_size=60)),
    st.tuples(st.sampled_from(['directory', 'unwritable', 'dangling', 'remove', 'other']), st.just(0)))
EDIT = st.one_of(
    st.tuples(st.just('remove'), st.integers(0, 1000)),
    st.tuples(st.just('change'), st.integers(0, 1000), st.sampled_from(['', 'cc_library(name = "new", hdrs = ["f1.h"], deps = [":lib"])\n', '#include "a/f1.h"\n', 'x = [\n'])),
    st.tuples(st.just('rename'), st.integers(0, 1000)),
    st.tuples(st.just('pipe'), st.just(0)),
    st.tuples(st.just('add'), st.sampled_from(['a', 'b', 'a/b', 'new'])))
ALL = st.tuples(st.sampled_from(COMMANDS), st.lists(st.sampled_from(OPTS), max_size=2), st.booleans(), st.booleans())


@st.composite
def case(draw):
  w = draw(c21.space())
  runs = draw(st.lists(ALL, min_size=1, max_size=2))
  steps = []
  for _ in range(draw(st.integers(1, 4))):
    k = draw(st.sampled_from(['run', 'corrupt', 'corrupt', 'edit', 'edit']))
    if k == 'corrupt':
      steps.append(('corrupt', draw(CORRUPT)))
    elif k == 'edit':
      steps.append(('edit', draw(EDIT)))
    steps.append(('run', draw(st.sampled_from(runs))))
  return w, steps, draw(st.sampled_from(['ok'] * 8 + ['none', 'file', 'loop', 'long', 'unset', 'link', 'parent file', 'empty']))


def snapshot(top):
  out = {}
  for d, dirs, files in os.walk(top):
    for x in dirs + files:
      p = os.path.join(d, x)
      s = os.lstat(p)
      out[os.path.relpath(p, top)] = (s.st_mode, s.st_mtime_ns, s.st_size if x in files else 0)
  return out


def home(top, kind):
  h = os.path.join(top, 'home')
  os.mkdir(h)
  cache = h + '/.cache'
  if kind in ('ok', 'empty'):
    os.makedirs(cache + '/bant')
  elif kind == 'none':
    os.mkdir(cache)
  elif kind == 'file':
    os.mkdir(cache)
    open(cache + '/bant', 'w').close()
  elif kind == 'parent file':
    open(cache, 'w').close()
  elif kind == 'loop':
    os.symlink('.cache', cache)
  elif kind == 'link':
    os.mkdir(cache)
    os.mkdir(top + '/elsewhere')
    os.symlink(top + '/elsewhere', cache + '/bant')
  elif kind == 'long':
    h += '/' + 'x' * 5000
  return {'HOME': h} if kind != 'unset' else {}


def cachefiles(top):
  d = os.path.join(top, 'home/.cache/bant')
  return sorted(os.path.join(d, f) for f in os.listdir(d)) if os.path.isdir(d) else []


def corrupt(top, what):
  k, v = what[:2]
  for f in cachefiles(top):
    if k == 'other':
      for g in cachefiles(top):
        if g != f and os.path.isfile(g) and not os.path.isdir(f):
          shutil.copy(g, f)
      continue
    if os.path.isdir(f) and not os.path.islink(f):
      os.rmdir(f)
    elif k not in ('truncate', 'append') or os.path.islink(f):
      os.unlink(f)
    if k in ('truncate', 'append'):
      with open(f, 'ab') as o:
        if k == 'truncate':
          o.truncate(min(v, o.tell()))
        else:
          o.write(v)
    elif k == 'bytes':
      with open(f, 'wb') as o:
        o.write(v)
    elif k == 'lines':
      with open(f, 'w', encoding='latin-1', newline='') as o:
        o.write(what[2].join(v * what[3]))
    elif k == 'directory':
      os.mkdir(f)
    elif k == 'unwritable':
      os.symlink('/proc/self/limits', f)
    elif k == 'dangling':
      os.symlink('/nonexistent/x', f)


def edit(ws, what):
  files = sorted(os.path.relpath(os.path.join(d, f), ws) for d, _, fs in os.walk(ws) for f in fs if f != 'MODULE.bazel' and 'bazel-out' not in f and f not in ('pipe', 'loop'))
  k, v = what[:2]
  if k == 'add':
    os.makedirs(os.path.join(ws, v), exist_ok=True)
    if not os.path.exists(os.path.join(ws, v, 'BUILD.bazel')):
      with open(os.path.join(ws, v, 'BUILD.bazel'), 'w') as f:
        f.write('cc_library(name = "added", srcs = glob(["**/*.cc"]), deps = ["//a:lib"])\n')
  elif k == 'pipe':
    for f, g in (('loop', 'loop'),):
      if not os.path.lexists(os.path.join(ws, f)):
        os.symlink(g, os.path.join(ws, f))
    if not os.path.exists(os.path.join(ws, 'pipe')):
      os.mkfifo(os.path.join(ws, 'pipe'))
  elif files:
    f = os.path.join(ws, files[v % len(files)])
    if k == 'remove':
      os.unlink(f)
    elif k == 'change':
      with open(f, 'w') as o:
        o.write(what[2])
    else:
      d = os.path.dirname(f)
      if d != ws and not os.path.exists(d + '2'):
        os.rename(d, d + '2')


def messages(err):
  """Without the times that -v reports."""
  return [l for l in err.split(b'\n') if not re.search(rb'[0-9.]+ ?(ms|usec|sec|us|s)\b|MiB|KiB', l)]


def one(ctx, bant, top, ws, r, env, what, tsan=False):
  cmd, opts, withpattern, outside = r
  argv = [cmd, *opts] + (['//...'] if withpattern or cmd in ('print', 'dwyu', 'canonicalize') else [])
  cwd = ws
  if outside:
    argv = ['-C', 'ws'] + argv
    cwd = top
  what = '%s after %s' % (argv, what)
  want = proto.run([ctx.env['bant']] + argv, cwd=cwd)
  before = snapshot(os.path.join(top, 'ws')), snapshot(os.path.join(top, 'out'))
  had = [f for f in cachefiles(top) if os.path.isfile(f) and os.path.getsize(f)]
  got = proto.run([bant] + argv, cwd=cwd, env=env, timeout=60)
  if tsan and b'ThreadSanitizer' in got[2]:
    ctx.fail('%s\n%s' % (what, got[2].decode(errors='replace')[-3000:]))
  ctx.eq((got[0], got[1], messages(got[2])), (want[0], want[1], messages(want[2])), 'run with cache: ' + what)
  if want[0] < 0:
    ctx.fail('killed by signal: %s' % what)
  if (snapshot(os.path.join(top, 'ws')), snapshot(os.path.join(top, 'out'))) != before:
    ctx.fail('project was changed: %s' % what)
  if had:
    ctx.hit(cmd)
  return argv, cwd


def run(ctx, c, bant=None, tsan=False):
  w, steps, kind = c
  top = ctx.scratch()
  ws, files = c21.write(top, w)
  env = home(top, kind)
  done = [files, kind]
  for k, v in steps:
    if k == 'corrupt':
      corrupt(top, v)
      ctx.label(v[0])
    elif k == 'edit':
      edit(ws, v)
      ctx.label('edit')
    else:
      one(ctx, bant or ctx.env['bant'], top, ws, v, env, done, tsan)
    done.append((k, v))


def run_tsan(ctx, c):
  run(ctx, c, ctx.env['tsan'], True)


# -- what is in the cache file
OPEN = re.compile(rb'^(?:\[pid +\d+\] )?openat\(AT_FDCWD, "((?:[^"\\]|\\.)*)", ([A-Z_|]+)[^)]*\) = (\d+|-1)', re.M)


def run_listed(ctx, c):
  w, r = c
  cmd, opts, withpattern, outside = r
  top = ctx.scratch()
  ws, files = c21.write(top, w)
  env = home(top, 'ok')
  argv = [cmd, *opts] + (['//...'] if withpattern or cmd in ('print', 'dwyu', 'canonicalize') else [])
  what = '%s in %r' % (argv, files)
  seen = []
  for i in range(2):
    log = os.path.join(top, 'log')
    proto.run(['strace', '-f', '-o', log, '-e', 'trace=openat', ctx.env['bant']] + argv, cwd=ws, env=env, timeout=60)
    with open(log, 'rb') as f:
      data = re.sub(rb'^\d+ +', b'', f.read(), flags=re.M)
    caches = cachefiles(top)
    if len(caches) != 1:
      ctx.fail('%d cache files: %s' % (len(caches), what))
    with open(caches[0], 'rb') as f:
      text = f.read()
    if text and not text.endswith(b'\n'):
      ctx.fail('cache file is cut off: %r of %s' % (text[-50:], what))
    listed = text.split(b'\n')[:-1]
    opened = set()
    for name, how, res in OPEN.findall(data):
      if res == b'-1' or name.startswith(b'/') or b'WR' in how:
        continue
      opened.add((b'D' if b'O_DIRECTORY' in how else b'F') + name)
    ctx.eq(len(set(listed)), len(listed), 'different lines of %r, %s' % (listed, what))
    if i == 0:
      # (the second run also opens what is in the cache)
      for x in listed:
        if x not in opened and x[1:2] != b'/':
          ctx.fail('%r is in the cache, but was not opened: %r of %s' % (x, sorted(opened), what))
      for x in opened:
        if os.path.basename(x) in (b'BUILD', b'BUILD.bazel') and x[:1] == b'F' and x not in listed:
          ctx.fail('%r was read, but is not in the cache %r of %s' % (x, listed, what))
    seen.append(listed)
  ctx.eq(seen[1], seen[0], 'cache of the second run %s' % what)
  if len(seen[0]) > 2:
    ctx.hit(cmd)


SUBS = [
    Sub('history', case(), run, 2000, 25000),
    Sub('races', case(), run_tsan, 400, 5000),
    Sub('listed', st.tuples(c21.space(), ALL), run_listed, 160, 2500),
]


def prepare():
  return {'bant': build.bant(), 'tsan': build.bant('tsan')}
