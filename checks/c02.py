"""C02: any bytes in the files of a project are handled without crash or hang."""
import csv
import functools
import io
import lzma
import os
import re
import struct
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from checks.models import messy, project
from vlib import build, proto
from vlib.harness import Sub

PROPERTY = 'C02'
RULE = ('Files of a project that has a bit of everything (BUILD files, sources, .proto, MODULE.bazel, WORKSPACE, .bazelrc, an external project), damaged at token and byte level '
        '(cut, truncated, duplicated, swapped, spliced, with odd fragments and bytes), times all commands with options and patterns, must be handled by the code built with '
        'Address- and UndefinedBehaviorSanitizer without crash or hang; every parse error must name a file that has been read, with a position inside it; what is said '
        'about other packages must be the same as without the damaged package. The same by libFuzzer, coverage guided, on the content of six files. Deeply nested and very long input. '
        'Non-trivial: the file has a parse error, or something is printed.')
ASSUMPTIONS = ['Files are regular files (or directories), and do not change while read.',
               'Paths in globs are not longer than the system allows (4 kB).', 'Variables that refer to themselves so that their values double, or nest, with each assignment do so tens of times at most.']

COMMANDS = ['print', 'parse', 'workspace', 'list-packages', 'list-targets', 'aliased-by', 'depends-on', 'has-dependents', 'lib-headers',
            'genrule-outputs', 'dwyu', 'canonicalize', 'compile-flags', 'compilation-db']
EXTS = [('@ext', 'ext~1.0')]
flag = st.sampled_from(['e', 'E', 'k', 'v', 'color', 'r1', 'r9', 'p', 'g(x)', 'g(a|.)', 'fs-expr', 'fplist', 'fjson', 'fcsv'])
pattern = st.sampled_from(['//...', '//...', '//...', '...', '//:all', '//a/...', '//a:x', ':foo', '//:foo', '@ext//...', '//b', '//:*', '//x/...'])
call = st.tuples(st.sampled_from(COMMANDS + ['print', 'dwyu']), st.lists(flag, max_size=4).map(tuple), st.lists(pattern, min_size=1, max_size=2).map(tuple))


def write(top, files):
  ext = {('@ext', 'BUILD'): messy.EXT_BUILD, ('@ext', 'sub/BUILD'): 'cc_library(name = "sub")\n'}
  ws = project.write(top, EXTS, {**{('', n): c for n, c in files.items()}, **ext}, 'REPO.bazel')
  return ws


def positions(ctx, ws, info, what):
  """Everything that looks like an error has a position in a file."""
  errors = 0
  for m in re.finditer(rb'(?m)^(?:\x1b\[[0-9;]*m)*([^\s:]+):(\d+):(\d+):', info):
    name, line, col = m.group(1).decode('utf-8', 'surrogateescape'), int(m.group(2)), int(m.group(3))
    p = os.path.join(ws, name)
    if not os.path.isfile(p):
      if os.path.basename(name).startswith(('BUILD', 'MODULE', 'WORKSPACE')):
        ctx.fail('message names a file that does not exist: %r; %s' % (m.group(0), what))
      continue
    with open(p, 'rb') as f:
      lines = f.read().split(b'\n')
    if not 1 <= line <= len(lines) or not 1 <= col <= len(lines[line - 1]) + 1:
      ctx.fail('position is not inside of the file: %r; %s' % (m.group(0), what))
    errors += 1
    ctx.label('messages with a position')
  return errors


def run(ctx, c):
  (files, touched), calls = c
  top = ctx.scratch()
  ws = write(top, files)
  what = 'damaged %r' % [(n, files[n]) for n in touched]
  hit = False
  for cmd, flags, pats in calls:
    w = '%s %r %r; %s' % (cmd, flags, pats, what)
    if cmd == 'workspace' and 'x' in str(pats):
      pats = ()
    try:
      status, out, info, err = ctx.call('cli', ws, *flags, '--', cmd, *pats)
    except proto.Crash as e:
      ctx.fail('%s\n%s' % (e, w))
    if positions(ctx, ws, info, w) and any(t.startswith(('BUILD', 'a/BUILD', 'b/BUILD')) for t in touched) or out:
      hit = True
    if status not in (b'0', b'1', b'3'):
      ctx.fail('status %r: %s' % (status, w))
  if hit:
    ctx.hit()


@st.composite
def other(draw):
  """A damaged package that others do not depend on."""
  name = draw(st.sampled_from(['BUILD', 'a/BUILD.bazel', 'b/BUILD']))
  files, _ = draw(messy.damaged(st.just(name)))
  dirname = draw(st.sampled_from(['a/broken', '0', 'zz', 'a/x']))
  return dirname, files[name], draw(st.lists(st.sampled_from([
      ('list-targets', ('fcsv',)), ('list-targets', ('fcsv', 'e')), ('depends-on', ('fcsv',)), ('genrule-outputs', ('fcsv', 'e')),
      ('print', ()), ('print', ('e', 'fs-expr')), ('list-packages', ('fcsv',)), ('compile-flags', ())]), min_size=1, max_size=3, unique=True))


def sections(out):
  """Output of print by file."""
  d, name = {}, None
  for l in out.rstrip(b'\n').split(b'\n'):
    m = re.match(rb'# (?:\./)?(\S*BUILD[^\s:]*)', l)
    if m:
      name = m.group(1)
      d[name] = d.get(name, b'')
    d[name] = d.get(name, b'') + l + b'\n'
  return d


def rows(out):
  return sorted(csv.reader(io.StringIO(out.decode('latin-1'), newline='')))


def run_other(ctx, c):
  dirname, content, calls = c
  top = ctx.scratch()
  ws = write(top, {n: t.encode() for n, t in messy.FILES.items()})
  path = os.path.join(ws, dirname, 'BUILD')
  results = []
  for there in (False, True):
    if there:
      os.makedirs(os.path.dirname(path))
      with open(path, 'wb') as f:
        f.write(content)
    results.append([ctx.call('cli', ws, *flags, '--', cmd, '//...') for cmd, flags in calls])
  name = (dirname + '/BUILD').encode()
  for (cmd, flags), a, b in zip(calls, *results):
    what = '%s %r with %s = %r' % (cmd, flags, name.decode(), content)
    if cmd == 'compile-flags':
      if set(a[1].split(b'\n')) - set(b[1].split(b'\n')):
        ctx.fail('lost flags %r; %s' % (set(a[1].split(b'\n')) - set(b[1].split(b'\n')), what))
      continue
    if cmd == 'print':
      if re.search(rb'#[^\n]*BUILD', content):  # Looks like the header of a file.
        continue
      x, y = sections(a[1]), sections(b[1])
      y.pop(name, None)
    else:
      x, y = rows(a[1]), rows(b[1])
      label = re.compile('//%s(:|$)' % dirname, re.S)
      y = [r for r in y if not any(name.decode() in cell for cell in r) and not (r and label.match(r[0 if cmd == 'depends-on' else -1]))]
    if x != y:
      ctx.fail('other packages are affected: %s\n-- without: %r\n-- with:    %r' % (what, a[1][-3000:], b[1][-3000:]))
    if b[1] != a[1] or b'BUILD:' in b[2]:
      ctx.hit()


# -- deep and long
N = 100000


def nest(t):
  return t.replace('@', '\n').encode()


DEEP = {
    'list': 'x = ' + '[' * N, 'paren': 'x = ' + '(' * N, 'map': 'x = ' + '{1:' * N, 'call': 'x = ' + 'f(' * N, 'calls': 'f(' * N, 'plus': 'x = ' + 'a+' * N + 'a',
    'list closed': 'x = ' + '[' * 900 + ']' * 900, 'paren closed': 'x = ' + '(' * 900 + '1' + ')' * 900, 'call closed': 'f(' * 900 + ')' * 900,
    'sum': 'x = ' + '["a"]+' * 900 + '["a"]', 'strings': 'x = ' + '"a"+' * 900 + '"a"', 'index': 'x = a' + '[0]' * N, 'index closed': 'x = a' + '[0]' * 900,
    'member': 'x = a' + '.b' * N, 'members': 'a.' * N, 'member closed': 'x = a' + '.b' * 900, 'minus': 'x = ' + '-' * N + '1', 'minus closed': 'x = ' + '-' * 900 + '1',
    'not': 'x=' + 'not ' * N + 'a', 'if': 'x = ' + 'a if b else ' * N, 'if closed': 'x = ' + 'a if b else ' * 900 + 'c', 'for': 'x = [a ' + 'for a in b ' * N + ']',
    'for closed': 'x = [a ' + 'for a in b ' * 900 + ']', 'statement': '[x for x in y]\n' * 3000, 'top for': '[a ' + 'for a in b ' * N + ']',
    'mixed': 'x=' + '[a' * 500 + '[0]' * 300 + ']' * 500, 'slice': 'x=' + 'a[1:' * N, 'percent': 'x = ' + '"%s" % ' * N + '1', 'select': 'x = ' + 'select({"//conditions:default": ' * 450 + '[]' + '})' * 450,
    'selects': 'x = ' + 'select({"//conditions:default": ' * N, 'glob': 'x = ' + 'glob([' * N, 'names': 'a.b(' * N, 'assign': 'a = ' * N, 'pairs': '(a, ' * N,
    'long list': 'x = [' + '"a", ' * N + ']', 'long string': 'x = "' + 'a' * 3000000 + '"', 'long name': 'a' * 1000000 + ' = 1', 'lines': '\n' * 1000000 + ')',
    'comment': '#' + 'x' * 3000000, 'comments': '#\n' * 500000, 'many': 'cc_library(name = "a", srcs = ["a.cc"])\n' * 5000, 'errors': 'cc_library(name = "a"))\n' * 5000, 'quotes': '"\n' * 100000,
    'keywords': ','.join('f(a%d = 1' % i for i in range(5000)), 'variables': ''.join('a%d = a%d + ["x"]\n' % (i + 1, i) for i in range(1500)), 'numbers': 'x = ' + '9' * 1000000,
    'pattern': 'glob(["' + '*' * 100000 + '"])', 'patterns': 'glob(["' + '**/' * 20000 + '"])', 'path': 'glob(["' + 'a/' * 2000 + '"])', 'label': 'cc_library(name = "a", deps = ["//' + 'a/' * 100000 + ':x"])',
    'classes': 'glob([' + '"*.a*b*c", ' * 2000 + '])', 'zeros': '\0' * 100000, 'alias': ''.join('alias(name = "a%d", actual = ":a%d")\n' % (i, i + 1) for i in range(3000)),
    'chain': ''.join('cc_library(name = "a%d", hdrs = ["a%d.h"], deps = [":a%d"])\n' % (i, i, i + 1) for i in range(2000)),
}


def run_deep(ctx, c):
  name, cmd, flags = c
  top = ctx.scratch()
  text = DEEP[name].encode()
  ws = write(top, {'BUILD': text, 'MODULE.bazel': b''})
  try:
    r = ctx.call('cli', ws, *flags, '--', cmd, '//...')
  except proto.Crash as e:
    ctx.fail('%s\n%s %s %r' % (e, name, cmd, flags))
  if b'workspace file' in r[2]:
    raise OSError('not seen as workspace')
  ctx.hit(cmd)
  if b'BUILD:' in r[1] + r[2]:
    ctx.label('output')


def deep():
  for i, n in enumerate(DEEP):
    for cmd, flags in (('print', ('e',)), ('parse', ()), (COMMANDS[i % 14] if COMMANDS[i % 14] != 'workspace' else 'dwyu', ('e', 'r9')), ('dwyu', ())):
      yield n, cmd, flags


# -- coverage guided
def fuzzer(top, *args):
  p = subprocess.run([build.fuzzer('commands'), '-timeout=20', '-rss_limit_mb=3500', *args], env=proto.ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=3000)
  return p.returncode, p.stderr.decode('utf-8', 'replace')


def kept():
  """Inputs that reached something new in a long run of the fuzzer (each after its length)."""
  with lzma.open(os.path.join(build.VERIF, 'fuzz/corpus.xz')) as f:
    data, res = f.read(), []
  while data:
    n, = struct.unpack('<I', data[:4])
    res.append(data[4:4 + n])
    data = data[4 + n:]
  return res


def inputs(worker):
  """What the fuzzer finds: input it failed with, or None, and the number of inputs it has tried."""
  thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
  seed = int(sys.argv[sys.argv.index('--seed') + 1] if '--seed' in sys.argv else os.environ.get('VERIF_SEED', '1') or '1')
  with tempfile.TemporaryDirectory(prefix='verif-', dir='/dev/shm') as top:
    corpus = os.path.join(top, 'corpus')
    os.mkdir(corpus)
    for i, s in enumerate(list(messy.seeds()) + (kept() if worker < 3 else [])):
      with open(os.path.join(corpus, str(i)), 'wb') as f:
        f.write(s)
    with open(os.path.join(top, 'dict'), 'w') as f:
      f.write(messy.dictionary())
    rc, text = fuzzer(top, '-dict=' + os.path.join(top, 'dict'), '-max_len=2048', '-len_control=0', '-seed=%d' % (seed * 100 + worker + 1),
                      '-runs=%d' % (400000 if thorough else 12000), '-artifact_prefix=' + top + '/bad-', '-print_final_stats=1', corpus)
    m = re.search(r'stat::number_of_executed_units: (\d+)', text)
    data = None
    if rc != 0:
      bad = [os.path.join(top, n) for n in os.listdir(top) if n.startswith('bad-')]
      if not bad:
        raise OSError('fuzzer failed: ' + text[-2000:])
      small = os.path.join(top, 'small')
      try:
        fuzzer(top, '-minimize_crash=1', '-runs=3000', '-max_total_time=20', '-exact_artifact_path=' + small, bad[0])
      except subprocess.TimeoutExpired:
        pass
      for name in (small, bad[0]):
        if os.path.exists(name):
          with open(name, 'rb') as f:
            data = f.read()
          yield data, 0
    yield None, int(m.group(1)) if m else 0


def run_fuzz(ctx, c):
  data, n = c
  ctx.label(*['thousand inputs'] * (n // 1000))
  ctx.hit()
  if data is None:
    return
  top = ctx.scratch()
  name = os.path.join(top, 'input')
  with open(name, 'wb') as f:
    f.write(data)
  rc, text = fuzzer(top, name)
  if rc != 0:
    keep = [l for l in text.splitlines() if any(k in l for k in ('ERROR', 'runtime error', 'SUMMARY', 'Assertion', '/bant/', 'CHECK'))]
    ctx.fail('crash with input %r of fuzz/commands.cc\n%s' % (data, '\n'.join(keep[:25])))


SUBS = [
    Sub('projects', st.tuples(messy.damaged(), st.lists(call, min_size=2, max_size=4)), run, 3000, 80000),
    Sub('isolation', other(), run_other, 1000, 20000),
    Sub('deep', None, run_deep, 0, 0, exhaustive=deep),
    *[Sub('fuzz%d' % i, None, run_fuzz, 0, 0, exhaustive=functools.partial(inputs, i)) for i in range(4)],
]


def prepare():
  return {'driver': build.driver(), 'fuzz': build.fuzzer('commands')}
