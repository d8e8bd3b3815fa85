"""C18: canonicalize proposes exactly the equivalent canonical respellings."""
import os
import re

from hypothesis import strategies as st

from checks.c10 import EXTS, PKGS, pattern, rows
from checks.models import label, project
from vlib import build, proto
from vlib.harness import Sub

PROPERTY = 'C18'
RULE = ('Workspaces of packages in the main and two external projects, rules of any kind with deps in any spelling of existing and missing '
        'targets, in plain lists, or with -e also concatenated or selected ones; labels and names with blanks, quotes and shell '
        'characters. The output is executed by a shell with a recording buildozer; each command must rename a label as written there to '
        'the canonical form of the same target in that package, and each label not in that form must be renamed. '
        'Applied to the text, the next run must be silent and the dependency graph the same. Non-trivial: something is to be renamed.')
ASSUMPTIONS = ['buildozer splits its command at blanks that are not escaped with a backslash.',
               'Labels that come from variables, and without -e those in expressions, are not looked at.']

NAMES = ['a', 'b', 'ab', 'l0', 'ext', 'y', 'x/z', 'a.b', 'b c', "it's", 'a$x', 'x;y', 'q(1)', 'g*', '#h', 'a&b', 'z~', 'p+q', '-n', 'w ', 'e=e', 'b  c']
# Not labels at all: left alone.
INVALID = ['a:b:c', '//c:c:', '//p:q:r', '@ext//a:b:c']
KINDS = ['cc_library', 'cc_library', 'cc_binary', 'cc_test', 'my_rule', 'alias', 'genrule', 'java_library', 'proto_library']
HOW = ['list'] * 6 + ['concat', 'select', 'paren', 'none', 'variable']


@st.composite
def space(draw):
  """[(package, file name, [(kind, name, how, [(target, spelling)], style)])]"""
  pk = draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=5, unique=True))
  names = {p: draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)) for p in pk}
  tgt = st.one_of(*[st.tuples(st.one_of(st.sampled_from(pk), st.sampled_from(PKGS)), st.sampled_from(NAMES)).map(lambda x: x[0] + (x[1],))] * 12,
                  st.sampled_from(INVALID).map(lambda x: ('!', x, '')))
  return [(p, draw(st.sampled_from(['BUILD', 'BUILD.bazel'])),
           [(draw(st.sampled_from(KINDS)), n, draw(st.sampled_from(HOW)), draw(st.lists(st.tuples(tgt, st.integers(0, 11)), max_size=4)),
             draw(st.integers(0, 15))) for n in names[p]]) for p in pk]


@st.composite
def case(draw):
  w = draw(space())
  pkg = draw(st.sampled_from([x[0] for x in w]))
  here = [r[1] for x in w if x[0] == pkg for r in x[2] if not set(r[1]) & set('*')]
  kind = draw(st.sampled_from(['rec', 'rec', 'rec', 'all', 'one', 'glob']))
  if kind == 'rec' and draw(st.booleans()):
    pkg = draw(st.sampled_from([('', ''), ('@ext', '')]))
  n = draw(st.sampled_from(here or ['a']))
  return w, kind, pkg, n, draw(st.booleans())


def canon(t, pkg):
  if t[:2] == pkg:
    return ':' + t[2]
  return '@' * (bool(pkg[0]) and not t[0]) + project.show(t)


def text(w, deps):
  """deps: {target: [label as written]}"""
  files = {}
  for pkg, fn, rules in w:
    t = 'package(default_visibility = ["//visibility:public"])\nDEPS = ["@no"]\n'
    for kind, n, how, _, style in rules:
      at = [('name', n)]
      d = deps[pkg + (n,)]
      if how == 'list':
        at.append(('deps', d))
      elif how == 'concat':
        at.append(('deps', ('expr', '%s + %s' % (project.lit(d[:1]), project.lit(d[1:])))))
      elif how == 'select':
        at.append(('deps', ('expr', 'select({"//conditions:default": %s})' % project.lit(d))))
      elif how == 'paren':
        at.append(('deps', ('expr', '(%s)' % project.lit(d))))
      elif how == 'variable':
        at.append(('deps', ('expr', 'DEPS')))
      if style % 5 == 1:
        at.append(('srcs', ['a', '//c:c', '//q/:q']))
      t += project.rule_text(kind, at, style)
    files[project.build_path(pkg, fn)] = t
  return files


SH = b'''buildozer() { printf '%s\\0' "$#" "$@"; }
'''


def commands(ctx, out, what):
  """The commands a shell executes: [(old, new, target)]."""
  lines = out.decode().split('\n')
  plain = [re.fullmatch(r"buildozer '([a-zA-Z0-9@/:._+~ -]*)' ([a-zA-Z0-9@/:._+-]+)", l) for l in lines[:-1]]
  if all(plain) and not lines[-1]:
    res = [(m[1], m[2]) for m in plain]
  else:
    d = ctx.scratch()
    rc, o, err = proto.run(['/bin/bash', '--noprofile', '--norc', '-r', '-c', SH.decode() + out.decode()], cwd=d, env={'PATH': '/nonexistent'})
    if rc or err or os.listdir(d):
      ctx.fail('shell: %r for %r: %s' % (err, out, what))
    a = o.decode().split('\0')[:-1]
    res = []
    while a:
      if a[0] != '2':
        ctx.fail('%r is called with %s arguments: %s' % (out, a[0], what))
      res.append((a[1], a[2]))
      a = a[3:]
    ctx.eq(len(res), out.count(b'\n'), 'commands in %r: %s' % (out, what))
    ctx.label('shell')
  edits = []
  for cmd, t in res:
    p = [x.replace('\\ ', ' ') for x in re.findall(r'(?:\\ |[^ ])+', cmd)]
    if len(p) != 4 or p[:2] != ['replace', 'deps']:
      ctx.fail('%r is not a renaming command: %s' % (cmd, what))
    edits.append((p[2], p[3], t))
  return edits


def run(ctx, c):
  w, kind, pkg, n, elaborate = c
  args, pat = pattern(kind, pkg, n)
  rules = {p + (r[1],): (p, r) for p, _, rs in w for r in rs}
  deps = {t: [x[1] if x[0] == '!' else project.spell(x, p, s) for x, s in r[3]] for t, (p, r) in rules.items()}
  meaning = {}
  for t, (p, r) in rules.items():
    for (x, _), d in zip(r[3], deps[t]):
      meaning[p, d] = x
  loaded = {p for p, _, _ in w if pat.match_package(*p)}
  flags = ['e'] * elaborate
  graph = None
  for turn in (0, 1):
    files = text(w, deps)
    what = '%s%s in %r' % ('-e ' * elaborate, args, files)
    ws = project.write(ctx.scratch(), EXTS, files)
    after = rows(ctx.call('cli', ws, 'e', 'fjson', 'r9', '--', 'depends-on', '//...')[1])
    status, out, info, err = ctx.call('cli', ws, *flags, '--', 'canonicalize', *args)
    ctx.eq(status, b'3' if out else b'0', 'status with output %r of %s' % (out, what))
    if turn:
      ctx.eq(out, b'', 'proposed after applying %s to %r: %s' % (edits, old, what))
      ctx.eq(after, graph, 'dependency graph after applying %s: %s' % (edits, what))
      return
    edits = commands(ctx, out, what)
    graph, old = after, files
    want = {}
    for t, (p, r) in rules.items():
      if p not in loaded or not pat.match(*t) or r[2] in ('none', 'variable'):
        continue
      # How much without -e is looked at is not specified for these.
      hard = r[2] == 'list' or elaborate and r[2] != 'paren'
      for d in deps[t]:
        if meaning[p, d][0] != '!' and d != canon(meaning[p, d], p):
          k = (d, canon(meaning[p, d], p), project.show(t))
          h, m = want.get(k, (False, 0))
          want[k] = (h or hard, m + 1)
    for k in set(edits) | set(want):
      h, m = want.get(k, (False, 0))
      got = edits.count(k)
      if got > m or h and got == 0:
        ctx.fail('%d times %s, expected %d\n  in %r of %s' % (got, k, m, out, what))
    if not edits:
      return
    show = {project.show(t): t for t in rules}
    for a, b, t in edits:
      deps[show[t]] = [b if x == a else x for x in deps[show[t]]]
    for t, (p, r) in rules.items():
      for (x, _), d in zip(r[3], deps[t]):
        meaning[p, d] = x
    ctx.hit('edits%d' % min(len(edits), 5), *(['ext'] * any(a[2].startswith('@') for a in edits)))


SUBS = [Sub('canonicalize', case(), run, 6000, 120000)]


def prepare():
  return {'driver': build.driver()}
