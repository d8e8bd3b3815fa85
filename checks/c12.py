"""C12: genrule-outputs and aliased-by list exactly the declared pairs."""
import json

from hypothesis import strategies as st

from checks.c10 import EXTS, PKGS, pattern, rows, same
from checks.models import label, project
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C12'
RULE = ('Workspaces with genrules of zero to four, sometimes up to forty outputs (in sub directories, with leading colon, the same base name in several packages), '
        'aliases (several to one target, chains, loops, to other packages and projects in any spelling, without actual) and similar rules of '
        'other kinds; outputs also as list sums with evaluation enabled. Both listings are compared with the description for '
        'generated patterns with and without -r. Non-trivial: a listing has at least three pairs, or two rules declare the same output name '
        'or two aliases the same target.')
ASSUMPTIONS = ['Rule names are unique in a package; no output is declared twice within one project.']

OUTS = ['gen.h', 'gen.cc', 'sub/gen.h', 'x.h', 'a/gen.h', 'b/gen.h', 'out', 'a b.h', 'ä.h', 'x.pb.h', 'gen.hh']
NAMES = ['a', 'b', 'g1', 'g2', 'ext', 'al', 'y', 'x/z', 'gen.h', 'g1_2']


@st.composite
def space(draw):
  pk = draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=6, unique=True))
  names = {p: draw(st.lists(st.sampled_from(NAMES), max_size=5, unique=True)) for p in pk}
  targets = [p + (n,) for p in pk for n in names[p]] + [('', 'gone', 'a'), ('@none', '', 'none')]
  hot = draw(st.sampled_from(targets))
  used = set()
  out = []
  for p in pk:
    rules = []
    for n in names[p]:
      kind = draw(st.sampled_from(['genrule', 'genrule', 'genrule', 'alias', 'alias', 'alias', 'my_genrule', 'cc_library', 'gen']))
      outs = []
      if kind != 'alias':
        for o in draw(st.lists(st.sampled_from(OUTS), max_size=4, unique=True)):
          full = (p[0], (p[1] + '/' if p[1] else '') + o)
          if kind != 'genrule' or full not in used:
            outs.append((o, draw(st.booleans())))
          if kind == 'genrule':
            used.add(full)
      actual = None
      if kind == 'alias' and draw(st.integers(0, 5)):
        actual = (draw(st.one_of(st.just(hot), st.sampled_from(targets))), draw(st.integers(0, 11)))
      rules.append((kind, n, outs, actual, draw(st.integers(0, 15))))
    out.append((p, draw(st.sampled_from(['BUILD', 'BUILD.bazel'])), rules))
  if draw(st.integers(0, 7)) == 0:  # Large numbers.
    a, b, c = draw(st.tuples(st.integers(0, 40), st.integers(0, 40), st.integers(0, 40)))
    out.append((('', 'many'), 'BUILD', [('genrule', 'm0', [('m%d.h' % i, i % 3 == 0) for i in range(a)], None, b % 16)] +
                [('alias', 'r%d' % i, [], (hot, i % 12), i % 16) for i in range(b)] +
                [('genrule', 's%d' % i, [('s%d/gen.h' % i, False)], None, i % 16) for i in range(c)]))
  return out


@st.composite
def case(draw):
  w = draw(space())
  pkg = draw(st.sampled_from([x[0] for x in w]))
  kind = draw(st.sampled_from(['none', 'rec', 'rec', 'all', 'one', 'glob']))
  n = draw(st.sampled_from(NAMES))
  follow = draw(st.booleans())
  # With -r this rule drags in every package.
  return w, kind, pkg, n, follow


def text(w, elaborate, follow):
  files = {}
  every = ['%s//%s:whatever' % (p[0] or '@', p[1]) for p, _, _ in w]
  for pkg, fn, rules in w:
    t = ''
    if follow:
      t += 'filegroup(name = "zz", deps = [%s])\n' % ', '.join('"%s"' % e for e in every)
    for kind, n, outs, actual, style in rules:
      at = [('name', n)]
      o = [':' + x if c else x for x, c in outs]
      if kind == 'alias':
        at.append(('actual', project.spell(actual[0], pkg, actual[1]) if actual else project.NO_LABEL[style % 6] if style > 5 else ('expr', 'select({"//c:x": ":a"})')))
      elif elaborate and len(o) > 1 and style % 2:
        at.append(('outs', ('expr', '[%s] + [%s]' % (project.lit(o[0]), ', '.join(map(project.lit, o[1:]))))))
      else:
        at.append(('outs', o))
      if style % 3 == 1:
        at += [('cmd', 'echo > $@'), ('srcs', ['in.h']), ('tools', [':a'])]
      t += project.rule_text(kind, at, style)
      if style == 7:
        t += 'genrule(outs = ["unnamed.h"])\nalias(actual = "//c:b")\n'
    files[project.build_path(pkg, fn)] = t
  return files


def run(ctx, c):
  w, kind, pkg, n, follow = c
  elaborate = len(n) % 2 == 0
  args, pat = pattern(kind, pkg, n)
  if kind == 'none':
    pat = label.Pattern('all')
  files = text(w, elaborate, follow)
  ws = project.write(ctx.scratch(), EXTS, files)
  flags = ['fjson'] + ['e'] * elaborate + ['r%d' % (5 if len(files) % 2 else 1)] * follow
  what = '%s %s in %r' % (flags, args, files)
  initial = {p for p, _, _ in w if (not p[0] if kind == 'none' else pat.match_package(*p))}
  selected_zz = follow and any(p in initial and pat.match(*p, 'zz') for p, _, _ in w)
  gens, al = [], {}
  for p, _, rules in w:
    if not (selected_zz or p in initial):
      continue
    for k, nm, outs, actual, _ in rules:
      if k == 'genrule' and (follow or pat.match(*p, nm)):
        gens += [((p[1] + '/' if p[1] else '') + o, project.show(p + (nm,))) for o, _ in outs]
      if k == 'alias' and actual and (follow or pat.match(*actual[0])):
        al.setdefault(project.show(actual[0]), []).append(project.show(p + (nm,)))
  if follow and not selected_zz and kind in ('one', 'glob'):
    return  # what is followed here is C10
  r = ctx.call('cli', ws, *flags, '--', 'genrule-outputs', *args)
  ctx.eq(r[0], b'0', 'status ' + what)
  got = sorted((o['generated-file'], o['providing-rule']) for o in map(json.loads, r[1].decode().splitlines()))
  paths = [g[0] for g in gens]
  if got != sorted(gens):
    dup = {x for x in paths if paths.count(x) > 1}
    ctx.eq([g for g in got if g[0] not in dup], sorted(g for g in gens if g[0] not in dup), 'genrule-outputs ' + what)
    # Same path in two projects
    ctx.eq(sorted({g[0] for g in got}), sorted(set(paths)), 'genrule-outputs (files) ' + what)
    if not set(got) <= set(gens):
      ctx.fail('genrule-outputs %r of %r; %s' % (got, gens, what))
    ctx.fail('only one of the rules with the same output is listed: %r of %r; %s' % (got, gens, what), key='genrule-same-path-in-two-projects')
  r = ctx.call('cli', ws, *flags, '--', 'aliased-by', *args)
  same(ctx, rows(r[1]), al, 'aliased-by ' + what)
  if len(gens) > 2 or len(set(paths)) < len(paths) or any(len(x) > 1 for x in al.values()):
    ctx.hit('outputs%d' % min(len(gens), 5))


SUBS = [Sub('pairs', case(), run, 10000, 200000)]


def prepare():
  return {'driver': build.driver()}
