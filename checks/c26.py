"""C26: cached lint results are those of linting everything afresh."""
import collections
import os
import re
import subprocess
import time

from hypothesis import strategies as st

from vlib import build
from vlib.harness import Sub

PROPERTY = 'C26'
RULE = ('Histories of edits (write, revert, swap, copy, move and delete of sources and headers, of the configuration, compile setup, arguments and '
        'linter version) with a run of the cached lint script after each, using a linter whose findings depend on all of these and which may '
        'crash, be interrupted, or be killed with the script. After every run the report, summary and exit status must be those of a model '
        'that lints every file afresh; the files linted must be all with a state not yet linted, and no others. '
        'Non-trivial: a later run found results in the cache.')
ASSUMPTIONS = ['Only directly included headers count, found by their basename in the sources.',
               'A changed compile setup only makes files with findings be linted again (as documented in the script).',
               'File names do not need quoting in the shell.']

CONFIG = ['Checks: a\n', 'Checks: b\n', '', 'Checks: a\n\n']
WORDS = ['w1', 'w2']
CHECKS = ['misc-foo', 'cppcoreguidelines-bar', 'modernize-use-cpp17', 'a1-b,c-d2', 'clang-diagnostic-error', 'clang-analyzer-core.X', 'misc-foo,-warnings-as-errors']
HEADERS = ['bant/x.h', 'bant/sub/x.h', 'bant/y.h', 'bant/sub/z.pb.h', 'bant/w-1.inl', 'bant/sub/q+r.hpp']
SOURCES = ['bant/a.cc', 'bant/sub/a.cc', 'bant/b.cpp', 'bant/sub/deep/c.cxx']
OTHERS = ['bant/data.txt', 'x.cc', 'bant/BUILD', 'scripts/x.h', 'bant/d.c']
EXECROOT = '/home/u/.cache/bazel/_bazel_u/1234/execroot/_main'

line = st.one_of(
    st.builds(lambda c, s: 'BAD %s %s' % (c, s), st.sampled_from(CHECKS), st.sampled_from('radb')),
    st.sampled_from(['NEEDS w1', 'NEEDS w2', 'HAS w1', 'HAS w2', '// comment', 'HAS w1']))
# With what is written in front of the name.
INCLUDE = ['#include "'] * 6 + ['# include "', '#include\t"', '  #include "', '#include"', '#  include  "']
include = st.builds(lambda i, n: i + n + '"', st.sampled_from(INCLUDE), st.sampled_from(['x.h', 'y.h', 'sub/x.h'] + HEADERS + HEADERS))
# Longer than what is read at once; what matters is then behind.
LONG = '// ' + 60 * 'long ' + '\n'
content = st.tuples(st.sampled_from([0, 0, 0, 0, 0, 0, 14, 40]), st.lists(include, max_size=3), st.lists(line, max_size=3)).map(
    lambda t: t[0] * LONG + ''.join(x + '\n' for x in t[1] + t[2]))
sources = st.sampled_from(SOURCES + HEADERS)

edit = st.one_of(
    st.tuples(st.just('write'), sources, content),
    st.tuples(st.just('write'), sources, content),
    st.tuples(st.just('write'), st.sampled_from(HEADERS), st.sampled_from(['', 'HAS w1\n', 'HAS w2\n', 'HAS w1\nHAS w2\n'])),
    st.tuples(st.just('append'), sources, st.sampled_from(['// c\n', 'BAD misc-foo r\n', '#include "bant/x.h"\n'])),
    st.tuples(st.just('revert'), sources),
    st.tuples(st.just('swap'), sources, sources),
    st.tuples(st.just('swap'), st.sampled_from(HEADERS), st.sampled_from(HEADERS)),
    st.tuples(st.just('copy'), sources, sources),
    st.tuples(st.just('move'), sources, sources),
    st.tuples(st.just('delete'), sources),
    st.tuples(st.just('other'), st.sampled_from(OTHERS), content),
    st.tuples(st.just('config'), st.sampled_from(CONFIG)),
    st.tuples(st.just('db'), st.sampled_from(['compile_commands.json', 'compile_flags.txt', 'MODULE.bazel']), st.sampled_from(['1', '2'])),
    st.tuples(st.just('leftover')),
)
FAULTS = ['segv', '127', 'int', 'killall']


has = st.lists(st.sampled_from(['HAS w1', 'HAS w2', '// c', '']), max_size=2).map(lambda l: ''.join(x + '\n' for x in l))


@st.composite
def history(draw):
  if draw(st.integers(0, 3)):  # Something that depends on headers.
    headers = draw(st.lists(st.sampled_from(HEADERS), min_size=2, max_size=4, unique=True))
    files = {h: draw(has) for h in headers}
    inc = st.sampled_from(headers).flatmap(lambda h: st.sampled_from([h, h, h, os.path.basename(h)]))
    inc = st.builds(lambda i, n: i + n + '"\n', st.sampled_from(INCLUDE), inc)
    for f in draw(st.lists(st.sampled_from(SOURCES), min_size=1, max_size=2, unique=True)):
      files[f] = ''.join(draw(st.lists(inc, min_size=1, max_size=3))) + draw(st.sampled_from(['NEEDS w1\n', 'NEEDS w2\n', 'BAD misc-foo r\n', 'NEEDS w1\nNEEDS w2\n']))
    h = st.sampled_from(headers)
    e = st.one_of(edit, st.tuples(st.just('write'), h, has), st.tuples(st.just('write'), h, has), st.tuples(st.just('write'), h, has),
                  st.tuples(st.just('swap'), h, h), st.tuples(st.just('revert'), h), st.tuples(st.just('copy'), h, h))
  else:
    files = {f: draw(content) for f in draw(st.lists(sources, min_size=2, max_size=6, unique=True))}
    e = edit
  steps = []
  common = draw(st.sampled_from(['18.1.3', '18.1.3', '19.1.0']))
  for _ in range(draw(st.integers(2, 5))):
    fault = draw(st.one_of(st.none(), st.none(), st.none(), st.none(), st.tuples(st.sampled_from(sorted(files)), st.sampled_from(FAULTS))))
    steps.append((draw(st.lists(e, min_size=0, max_size=3)),
                  draw(st.sampled_from([(), (), (), (), ('--checks=x',), ('--fix', '-j 2')])), fault,
                  draw(st.sampled_from([common] * 7 + ['18.1.8', '180.0']))))
  return (draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(['ws', 'ws', 'w.s', 'c++ (1)'])), sorted(files.items()), steps)


class World:
  def __init__(self, top, with_bazel, home, name):
    self.top = top
    self.ws = os.path.join(top, name)
    os.makedirs(self.ws + '/bant')
    self.bin = os.path.join(top, 'bin')
    os.makedirs(self.bin)
    self.log = os.path.join(top, 'log')
    self.env = {'PATH': self.bin + ':/usr/bin:/bin', 'CLANG_TIDY': build.fake_tidy(), 'FAKE_LOG': self.log,
                'ASAN_OPTIONS': 'detect_leaks=0'}
    if home:
      os.makedirs(top + '/home/.cache')
      self.env['HOME'] = top + '/home'
    else:
      self.env['CACHE_DIR'] = top + '/cache'
    if with_bazel:
      self.env['FAKE_EXECROOT'] = EXECROOT
      with open(self.bin + '/bazel', 'w') as f:
        f.write('#!/bin/sh\necho "%s"\n' % EXECROOT)
      os.chmod(self.bin + '/bazel', 0o755)
    self.files = {}
    self.previous = {}
    self.clock = 0   # runs so far
    self.start = int(time.time()) - 1000000
    self.changed = {}
    # state of a file (what its findings depend on) -> when it was linted
    self.linted = {}
    self.unsure = set()
    for f, c in (('.clang-tidy', CONFIG[0]), ('compile_commands.json', '1'), ('MODULE.bazel', '1')):
      self.write(f, c)

  def write(self, f, c):
    p = os.path.join(self.ws, f)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if f in self.files:
      self.previous[f] = self.files[f]
    self.files[f] = c
    with open(p, 'w') as o:
      o.write(c)
    self.changed[f] = self.clock
    os.utime(p, (self.start + 10 * self.clock - 5,) * 2)

  def db_time(self):
    return max(self.changed['MODULE.bazel'], self.changed['compile_commands.json' if 'compile_commands.json' in self.files else 'compile_flags.txt'])

  def settle(self):
    """Time stamps of results, independent of the resolution of the clock."""
    for d, _, fs in os.walk(self.top):
      if os.path.basename(d) == 'contents':
        for f in fs:
          p = os.path.join(d, f)
          if os.stat(p).st_mtime > self.start + 500000:
            os.utime(p, (self.start + 10 * self.clock,) * 2)

  def apply(self, e):
    k = e[0]
    if k in ('write', 'other'):
      self.write(e[1], e[2])
    elif k == 'append' and e[1] in self.files:
      self.write(e[1], self.files[e[1]] + e[2])
    elif k == 'revert' and e[1] in self.previous:
      self.write(e[1], self.previous[e[1]])
    elif k == 'swap' and e[1] in self.files and e[2] in self.files:
      a, b = self.files[e[1]], self.files[e[2]]
      self.write(e[1], b)
      self.write(e[2], a)
    elif k in ('copy', 'move') and e[1] in self.files and e[1] != e[2]:
      self.write(e[2], self.files[e[1]])
      if k == 'move':
        self.delete(e[1])
    elif k == 'delete' and e[1] in self.files:
      self.delete(e[1])
    elif k == 'config':
      self.write('.clang-tidy', e[1])
    elif k == 'db':
      self.write(e[1], e[2])
      # compile_flags.txt is only looked at without compile_commands.json
      if e[1] == 'compile_flags.txt' and 'compile_commands.json' in self.files:
        self.delete('compile_commands.json')
    elif k == 'leftover':
      for d, _, fs in list(os.walk(self.top)):
        if os.path.basename(d) == 'contents':
          for f in sorted(fs)[:3]:
            with open(os.path.join(d, f + '.tmp'), 'w') as o:
              o.write('garbage [misc-garbage]\n')

  def delete(self, f):
    self.previous[f] = self.files.pop(f)
    os.unlink(os.path.join(self.ws, f))

  def of_interest(self):
    return sorted(f for f in self.files if f.startswith('bant/') and os.path.splitext(f)[1] in ('.cc', '.cpp', '.cxx', '.h', '.hpp', '.hxx', '.inl'))

  def includes(self, f):
    return re.findall(r'(?m)^[ \t]*#[ \t]*include[ \t]*"([^"\n]*)"', self.files[f])

  def digest(self, f, args):
    included = []
    for h in self.includes(f):
      for p in (h, os.path.join(os.path.dirname(f), h)):
        p = os.path.normpath(p)
        if p in self.files:
          included.append(self.files[p])
          break
    inc = ''.join(c + '\n' for c in included)
    all_ = self.files[f] + '\1' + inc + '\1'
    for x in ('.clang-tidy', 'compile_commands.json', 'compile_flags.txt', 'MODULE.bazel'):
      all_ += self.files.get(x, '') + '\1'
    for a in ['--quiet', '--config-file=.clang-tidy', '--extra-arg=-Wno-unknown-pragmas', '--extra-arg=-Wno-unknown-warning-option', *args]:
      all_ += a + '\1'
    all_ += self.version
    h = 2166136261
    for c in all_.encode():
      h = (h ^ c) * 16777619 & 0xffffffff
    return h, inc

  def findings(self, f, args):
    h, inc = self.digest(f, args)
    out, checks = '', []
    for no, l in enumerate(self.files[f].splitlines(), 1):
      w = l.split()
      check = None
      if w and w[0] == 'BAD':
        check = w[1]
      elif w and w[0] == 'NEEDS' and 'HAS ' + w[1] not in inc:
        check = 'misc-needs'
      if check:
        out += '%s:%d:1: warning: %08x [%s]\n  %d | code\n%s:%d:2: note: here\n' % (f, no, h, check, no, f, no)
        checks.append('[%s]' % check)
    return out, checks

  def state(self, f, args, exact):
    """What decides on the findings; or all that may cause another lint."""
    base = (f, self.files[f], self.files['.clang-tidy'], args, self.version)
    if exact:
      return ('exact', base, self.digest_includes(f))
    hs = []
    for h in self.includes(f):
      n = os.path.basename(h)
      hs.append(tuple((p, self.files[p]) for p in self.of_interest() if os.path.basename(p) == n))
    return ('all', base, tuple(hs))

  def digest_includes(self, f):
    out = []
    for h in self.includes(f):
      for p in (h, os.path.join(os.path.dirname(f), h)):
        p = os.path.normpath(p)
        if p in self.files:
          out.append((p, self.files[p]))
          break
      else:
        out.append(None)
    return tuple(out)


def run(ctx, case):
  with_bazel, home, name, files, steps = case
  # Everything one after the other, as with one processor.
  alone = sum(len(c) for _, c in files) % 4 == 0
  top = ctx.scratch()
  w = World(top, with_bazel, home, name)
  for f, c in files:
    w.write(f, c)
  tool = build.clang_tidy_cached()
  reused = False
  for no, (edits, args, fault, version) in enumerate(steps):
    w.clock += 1
    w.version = version
    for e in edits:
      w.apply(e)
    what = 'run %d after %r of %r' % (no, edits, case)
    interest = w.of_interest()
    expect = {f: w.findings(f, args) for f in interest}
    must, may = set(), set()
    for f in interest:
      exact, coarse = (w.linted.get(w.state(f, args, x)) for x in (True, False))
      unsure = w.state(f, args, True) in w.unsure
      if exact is None and not unsure or exact is not None and expect[f][0] and max(exact, coarse or 0) < w.db_time():
        must.add(f)
      if coarse is None or expect[f][0] and coarse < w.db_time():
        may.add(f)
    if os.path.exists(w.log):
      os.unlink(w.log)
    env = dict(w.env, FAKE_VERSION=version)
    if alone:
      env['FAKE_NPROCS'] = '1'
    if fault:
      env['FAKE_FAULT'] = '%s %s' % fault
    p = subprocess.Popen([tool, *args], cwd=w.ws, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
      out, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
      os.killpg(p.pid, 9)
      p.communicate()
      ctx.fail('does not end: ' + what)
    w.settle()
    out, err = out.decode(), err.decode('utf-8', 'replace')
    linted = collections.Counter(open(w.log).read().split('\n')[:-1] if os.path.exists(w.log) else [])
    struck = fault is not None and fault[0] in linted
    if 'Sanitizer' in err or not struck and p.returncode not in (0, 1):
      ctx.fail('status %d, %s: %s' % (p.returncode, err[-1500:], what))
    if any(n > 1 for n in linted.values()):
      ctx.fail('linted more than once: %r; %s' % (linted, what))
    if set(linted) - may:
      ctx.fail('linted without need: %r; %s' % (sorted(set(linted) - may), what))
    ended = not struck or fault[1] in ('segv', '127')
    if ended and must - set(linted):
      ctx.fail('not linted although changed: %r; %s' % (sorted(must - set(linted)), what))
    for f in interest:
      exact, coarse = w.state(f, args, True), w.state(f, args, False)
      if f not in linted:
        if exact in w.linted:
          w.linted.setdefault(coarse, w.linted[exact])
      elif not ended:
        w.unsure.add(exact)
        w.linted.pop(coarse, None)
        w.linted.pop(exact, None)
      elif not struck or f != fault[0]:
        w.linted[exact] = w.linted[coarse] = w.clock
        w.unsure.discard(exact)
    if no and len(linted) < len(interest):
      reused = True
    if not ended:
      ctx.label(fault[1])
      continue
    if struck:
      ctx.label(fault[1])
    skip = {fault[0]} if struck else set()
    check_report(ctx, w, {f: x for f, x in expect.items() if f not in skip}, skip, out, p.returncode, what + '\n' + err[-800:])
  if reused:
    ctx.hit()


def check_report(ctx, w, expect, skip, out, rc, what):
  with open(os.path.join(w.ws, 'bant_clang-tidy.out')) as f:
    text = f.read()
  got, name = {}, None
  for l in text.splitlines(True):
    m = re.fullmatch(r'(\S+):\n', l)
    if m:
      name = m.group(1)
      if name in got:
        ctx.fail('%s reported twice: %s' % (name, what))
      got[name] = ''
    elif name is None:
      ctx.fail('unexpected line %r in report: %s' % (l, what))
    else:
      got[name] += l
  for s in skip:
    got.pop(s, None)
  want = {f: t for f, (t, _) in expect.items() if t}
  if got != want:
    bad = sorted(f for f in {*got, *want} if got.get(f) != want.get(f))
    ctx.fail('report of %s is %r, expected %r: %s' % (bad[0], got.get(bad[0]), want.get(bad[0]), what))
  if skip:
    return
  counts = collections.Counter(c for _, cs in expect.values() for c in cs)
  lines = out.splitlines()
  if sorted(lines) != sorted('%5d %s' % (n, c) for c, n in counts.items()):
    ctx.fail('summary is %r, expected %r: %s' % (lines, counts, what))
  if [int(l.split()[0]) for l in lines] != sorted(counts.values(), reverse=True):
    ctx.fail('summary is not sorted: %r, %s' % (lines, what))
  with open(os.path.join(w.ws, 'bant_clang-tidy.summary')) as f:
    ctx.eq(f.read(), out, 'summary file: ' + what)
  ctx.eq(rc, 1 if counts else 0, 'exit status: ' + what)


SUBS = [Sub('history', history(), run, 1000, 16000)]


def prepare():
  return {'tool': build.clang_tidy_cached(), 'fake': build.fake_tidy()}
