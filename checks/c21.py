"""C21: the command line does what its help says, with meaningful exit status."""
import os
import pty
import re

from hypothesis import strategies as st

from checks.models import dwyu, project
from checks.c10 import EXTS, pattern
from vlib import build, proto
from vlib.harness import Sub

PROPERTY = 'C21'
RULE = ('Every prefix of every documented command, and words that are none, on a fixed workspace: unique ones must act as the command, others be '
        'refused. Generated workspaces (libraries, aliases, sources, broken files) times all commands times option lists in every '
        'spelling: joined, separate, clustered, repeated, before or after the arguments. The real executable must produce what the commands give in process '
        'when called with the meaning the help gives to the options; -o, -C, -q, -v only move, silence or extend as documented; '
        'wrong options, formats, patterns, directories and unwritable outputs fail. Non-trivial: at least two options and some output.')
ASSUMPTIONS = ['A relative -o together with -C and an empty -f or -r with something else than a number are not specified.',
               'The undocumented -p, -b, -V and the graphviz format are not part of the command line.']

COMMANDS = ['print', 'parse', 'workspace', 'list-packages', 'list-targets', 'aliased-by', 'depends-on', 'has-dependents', 'lib-headers',
            'genrule-outputs', 'dwyu', 'canonicalize', 'compile-flags', 'compilation-db']
FORMATS = ['native', 's-expr', 'plist', 'json', 'csv']
MODULE = 'module(name = "main")\nbazel_dep(name = "ext", version = "1.0")\nbazel_dep(name = "gone", version = "2")\n'
GEN = '''genrule(name = "g", outs = ["a.txt", "b.h"], cmd = "x")
cc_library(name = "foo", hdrs = ["b.h"] + ["C.h"], deps = ["//gen:g", "foo"])
alias(name = "al", actual = ":foo")
'''
BROKEN = [None, None, None, 'cc_library(name = "x", deps = ["//gen:foo"\n', 'cc_library(name = "lost")\n)\ncc_library(name = "y")\n']


@st.composite
def space(draw):
  return draw(dwyu.case()) + (draw(st.sampled_from(BROKEN)), draw(st.booleans()))


def write(top, c):
  w, src, kind, pkg, n, keep, broken, gen = c
  m = dwyu.Model(w, dict(src))
  ws, files = m.write(top)
  for name, text in (('MODULE.bazel', MODULE), ('gen/BUILD', gen and GEN), ('broken/BUILD', broken), ('.bazelrc', gen and 'build --cxxopt=-Wall\n')):
    if text:
      os.makedirs(os.path.dirname(os.path.join(ws, name)), exist_ok=True)
      with open(os.path.join(ws, name), 'w') as f:
        f.write(text)
      files['', name] = text
  return ws, files


# Meaning of options: (letter, argument or None)
OPTION = st.one_of(
    st.tuples(st.sampled_from('qvEeik'), st.none()),
    st.tuples(st.just('f'), st.sampled_from(FORMATS).flatmap(lambda f: st.integers(1, len(f)).map(lambda n: f[:n]))),
    st.tuples(st.just('f'), st.sampled_from(FORMATS).flatmap(lambda f: st.integers(1, len(f)).map(lambda n: f[:n]))),
    st.tuples(st.just('r'), st.sampled_from(['', '', '0', '1', '2', '3', '007', '100'])),
    st.tuples(st.just('g'), st.sampled_from(['foo', 'LIB', 'a|b', '.', 'h$', '^l', '', 'Cc_', '(', '-g'])),
    st.tuples(st.just('o'), st.sampled_from(['o1', 'o1', '-', 'o2'])),
    st.tuples(st.just('C'), st.sampled_from(['ws', 'ws/', '.', 'gone/..'])))


@st.composite
def case(draw):
  w = draw(space())
  cmd = draw(st.sampled_from(COMMANDS + ['dwyu', 'print', 'list-targets', 'depends-on']))
  opts = draw(st.lists(OPTION, max_size=5))
  spelling = draw(st.lists(st.integers(0, 23), min_size=len(opts), max_size=len(opts)))
  bad = draw(st.sampled_from([None] * 12 + ['option', 'format', 'directory', 'output', 'missing', 'pattern', 'two', 'full']))
  return w, cmd, opts, spelling, bad, draw(st.booleans()), draw(st.integers(0, 3))


def expected(opts):
  """Flags of the driver, and what main does itself."""
  d = {}
  for o, a in opts:
    if o == 'r':
      d['r'] = int(a) if a else 2147483647
    elif a is None:
      d[o] = d.get(o, 0) + 1
    else:
      d[o] = a
  flags = [o for o in 'eEk' if o in d]
  if d.get('f'):
    flags.append('f' + [f for f in FORMATS if f.startswith(d['f'])][0])
  if 'r' in d:
    flags.append('r%d' % d['r'])
  if d.get('g'):
    flags.append('g(%s%s)' % ('(?i)' if 'i' in d else '', d['g']))
  if 'v' in d:
    flags.append('v')
  return flags, d


def render(opts, spelling, top):
  """[(words, position)]"""
  out = []
  for (o, a), s in zip(opts, spelling):
    if o == 'o' and a != '-':
      a = os.path.join(top, a)
    if a is None:
      last = out[-1] if out else None
      # clustered
      if s % 3 == 0 and last and re.fullmatch('-[a-zA-Z]+', last[0][0]) and len(last[0]) == 1 and last[2]:
        out[-1] = ([last[0][0] + o], last[1], True)
      else:
        out.append((['-' + o], s // 3 % 3, True))
    elif o == 'r' or s % 2 and a:
      # Something that takes an argument can end a cluster.
      last = out[-1] if out else None
      if s % 5 == 0 and last and last[2]:
        out[-1] = ([last[0][0] + o + a], last[1], False)
      else:
        out.append((['-' + o + a], s // 3 % 3, False))
    else:
      out.append((['-' + o, a], s // 3 % 3, False))
  # What counts is the order.
  pos = 0
  res = []
  for words, p, _ in out:
    pos = max(pos, p)
    res.append((words, pos))
  return res


def lines(b):
  return sorted(b.split(b'\n'))


def run(ctx, c):
  w, cmd, opts, spelling, bad, withpattern, old = c
  top = ctx.scratch()
  ws, files = write(top, w)
  cwd = ws
  if any(o == 'C' for o, _ in opts):
    opts = [(o, {'gone/..': os.path.join(top, 'ws/../ws'), 'ws/': 'ws/'}.get(a, a) if o == 'C' else a) for o, a in opts]
    # The first one goes to the workspace, others stay there.
    first = True
    for i, (o, a) in enumerate(opts):
      if o == 'C':
        opts[i] = (o, a if first and a != '.' else 'ws' if first else '.')
        first = False
    cwd = top
  args, _ = pattern(*w[2:5]) if withpattern else ([], 0)
  if bad == 'pattern':
    args = [['//a:*b*:'], ['@@@'], ['[']][old % 3]
    args = args[:1]
  elif bad == 'two':
    args = ['//a:all', '//b:all']
  flags, d = expected(opts)
  words = render(opts, spelling, top)
  insert = {'option': ['-' + 'ZXyj'[old]], 'format': ['-f', ['xml', 'jsonx', 'JSON', 'ns'][old]], 'directory': ['-C', '/nonexistent/x'],
            'output': ['-o', [top, top + '/no/such/file', '/proc/nope', top + '/'][old]], 'full': ['-o', '/dev/full']}.get(bad)
  if insert:
    words.append((insert, 2))
  argv = sum((x for x, p in words if p == 0), []) + [cmd] + sum((x for x, p in words if p == 1), []) + args + sum((x for x, p in words if p == 2), [])
  if bad == 'missing':
    argv += [['-f'], ['-o'], ['-g'], ['-C']][old]
  for f in ('o1', 'o2'):
    if old % 2:
      with open(os.path.join(top, f), 'w') as o:
        o.write('previous content\n' * 5000)
  what = '%s in %s of %r' % (argv, cwd, files)
  rc, out, err = proto.run([ctx.env['bant']] + argv, cwd=cwd)
  if rc < 0:
    ctx.fail('killed by signal %d: %s' % (-rc, what))
  if insert and bad != 'full' or bad in ('missing', 'two'):
    if rc == 0 or out or (not err and 'q' not in d):
      ctx.fail('status %d, stdout %r, stderr %r of %s' % (rc, out, err, what))
    if bad in ('option', 'missing') and b'Usage:' not in err:
      ctx.fail('no usage in %r: %s' % (err, what))
    ctx.hit(bad)
    return
  r = ctx.call('cli', ws, *flags, '--', cmd, *args)
  status, want, info, cerr = int(r[0]), *r[1:]
  if bad == 'pattern' and args != ['//a:*b*:']:
    if status == 0:
      ctx.label('pattern taken')
  if bad == 'full':
    ctx.eq(out, b'', 'stdout of %s' % what)
    ctx.eq(rc, 1 if want else status, 'status if there is no space for %r of %s' % (want[:100], what))
    ctx.hit('full')
    return
  ctx.eq(rc, status, 'status of %s, stderr %r' % (what, err))
  if status == 2:
    ctx.fail('status 2: ' + what)
  target = d.get('o', '-')
  if target == '-':
    ctx.eq(out, want, 'stdout of %s' % what)
  else:
    ctx.eq(out, b'', 'stdout of %s' % what)
    with open(os.path.join(top, target), 'rb') as f:
      ctx.eq(f.read(), want, 'output file of %s' % what)
  if 'v' in d:
    if 'q' not in d:
      for l in set(lines(cerr)) - set(lines(err)):
        ctx.fail('%r is missing in stderr %r of %s' % (l, err, what))
  else:
    ctx.eq(lines(err), lines(cerr if 'q' in d else info + cerr), 'stderr of %s' % what)
  if want and len(opts) > 1:
    ctx.hit(cmd, *sorted(d))
  elif err:
    ctx.label('message')


# -- commands
FIXED = None


def words():
  out = set()
  for c in COMMANDS:
    for i in range(1, len(c) + 1):
      out.add(c[:i])
    out |= {c + 'x', c[1:], c.upper(), c.replace('-', '_') + '_', c[:2] + 'x', c + ' ', ' ' + c}
  return sorted(out | {'x', '-', '--', '', 'help', '0', 'list', 'comp', 'compil', 'dep', 'zz', 'a-', 'prin t'})


def run_command(ctx, c):
  word, = c
  top = ctx.scratch()
  files = {('', 'gen/BUILD'): GEN, ('', 'gen/C.h'): '', ('', 'u/BUILD'): 'cc_library(name = "u", hdrs = ["u.h"], deps = ["//gen:al", "u2", "@ext//a"])\n'
           'cc_library(name = "u2", srcs = ["a.cc"], deps = [":v"])\ncc_library(name = "v", hdrs = ["v.h"])\n', ('', 'u/a.cc'): '#include "gen/b.h"\n', ('', '.bazelrc'): 'build --cxxopt=-Wall\n', ('@ext', 'a/BUILD'): 'cc_library(name = "a")\n'}
  ws = project.write(top, EXTS, files, wstext=MODULE)
  ref = {}
  for a in COMMANDS:
    r = ctx.call('cli', ws, '--', a, '//...')
    ref[a] = (int(r[0]), r[1])
  if len({v[1] for v in ref.values()}) != len(COMMANDS):
    ctx.fail('commands can not be told apart: %s' % ref)
  rc, out, err = proto.run([ctx.env['bant'], '--', word, '//...'], cwd=ws)
  found = [a for a in COMMANDS if a.startswith(word)]
  if word in COMMANDS:
    found = [word]
  if len(found) == 1:
    ctx.eq((rc, out), ref[found[0]], 'command %r, stderr %r' % (word, err))
    if b'Usage:' in err:
      ctx.fail('usage is shown for %r' % word)
    ctx.hit('command')
  else:
    if rc == 0 or out or b'Usage:' not in err:
      ctx.fail('command %r: status %d, stdout %r, stderr %r' % (word, rc, out, err))
    ctx.hit('refused')


# -- terminal
def run_terminal(ctx, c):
  w, cmd, flags, where = c
  usefile = where == 'file'
  dash = ['-o', '-'] * where.startswith('dash')
  top = ctx.scratch()
  ws, files = write(top, w)
  args, _ = pattern(*w[2:5])
  argv = [ctx.env['bant'], cmd] + args + flags
  what = '%s (%s) in %r' % (argv, where, files)
  rc, out, err = proto.run(argv, cwd=ws)
  a, b = pty.openpty()
  try:
    import subprocess
    import termios
    t = termios.tcgetattr(b)
    t[1] &= ~termios.OPOST
    termios.tcsetattr(b, termios.TCSANOW, t)
    argv += ['-o', top + '/o1'] * usefile + dash
    if where.endswith('err'):
      # Only messages go to the terminal.
      with open(top + '/o1', 'wb') as f:
        p = subprocess.Popen(argv, cwd=ws, env=proto.ENV, stdin=b, stdout=f, stderr=b)
    else:
      p = subprocess.Popen(argv, cwd=ws, env=proto.ENV, stdin=subprocess.DEVNULL, stdout=b, stderr=subprocess.DEVNULL)
    os.close(b)
    b = None
    got = b''
    while True:
      try:
        x = os.read(a, 65536)
      except OSError:
        break
      if not x:
        break
      got += x
    ctx.eq(p.wait(), rc, 'status at a terminal of %s' % what)
  finally:
    os.close(a)
    if b is not None:
      os.close(b)
  if where.endswith('err'):
    ctx.eq(sorted(re.sub(rb'\x1b\[[0-9;]*m', b'', got).splitlines()), sorted(err.splitlines()), 'messages at a terminal of %s' % what)
  if usefile or where.endswith('err'):
    if usefile:
      ctx.eq(got, b'', 'terminal output of %s' % what)
    with open(top + '/o1', 'rb') as f:
      ctx.eq(f.read(), out, 'output file at a terminal of %s' % what)
  else:
    ctx.eq(re.sub(rb'\x1b\[[0-9;]*m', b'', got), out, 'terminal output of %s' % what)
  if out:
    ctx.hit(where)


def run_help(ctx, c):
  pre, post = c
  rc, out, err = proto.run([ctx.env['bant']] + pre + ['-h'] + post, cwd=ctx.scratch())
  ctx.eq((rc, out), (0, b''), 'status and stdout of -h')
  if b'Usage:' not in err:
    ctx.fail('no usage: %r' % err)
  if pre or post:
    ctx.hit()


SUBS = [
    Sub('options', case(), run, 2600, 30000),
    Sub('commands', st.sampled_from(words()).map(lambda x: (x,)), run_command, 0, 0, exhaustive=lambda: [(x,) for x in words()]),
    Sub('terminal', st.tuples(space(), st.sampled_from(['print', 'print', 'list-targets', 'dwyu', 'depends-on']),
                              st.sampled_from([[], ['-g', 'a|b'], ['-fj'], ['-e'], ['-g', 'lib', '-i']]),
                              st.sampled_from(['terminal', 'file', 'dash', 'err', 'dash-err'])), run_terminal, 400, 5000),
    Sub('help', st.tuples(st.lists(st.sampled_from(['-q', '-v', '-e', '-fj', '-r3', 'print']), max_size=2), st.lists(st.sampled_from(['print', '//...', '-q', '-Z']), max_size=2)),
        run_help, 60, 200),
]


def prepare():
  return {'driver': build.driver(), 'bant': build.bant()}
