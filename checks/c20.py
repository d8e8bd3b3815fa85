"""C20: external projects declared by the workspace are found at their right place."""
import csv
import io
import os

from hypothesis import strategies as st

from checks.models import label
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C20'
RULE = ('Workspaces with any of the four workspace files, declarations with and without version and repository name '
        'in any attribute order between other rules, and an external directory with plain, versioned, overridden and '
        'unrelated entries (also files and links), whose names are prefixes of each other. The reference computes the '
        'project map from this description; compared with the loaded map, with look-ups, with the workspace listing, and with '
        'the listing restricted to what the BUILD files of a pattern refer to. Non-trivial: at least two '
        'candidate directories for a project, or a declared project that is not there.')
ASSUMPTIONS = ['Several directories of one undeclared project, and declarations that clash, resolve in sorted order.',
               'The checks run as root: unreadable directories are not generated.']

NAMES = ['foo', 'foobar', 'fo', 'abseil-cpp', 'rules_cc', 'foo.bar', 'a', 'zlib']
VERS = ['1', '1.2', '1.2.3', '0.9', '20240116.1', 'override']
EXT = 'bazel-out/../../../external/'
FILES = ['WORKSPACE', 'WORKSPACE.bazel', 'WORKSPACE.bzlmod', 'MODULE.bazel']

name = st.sampled_from(NAMES)
decl = st.tuples(st.sampled_from(['bazel_dep', 'bazel_dep', 'http_archive', 'git_repository', 'local_repository', 'module']),
                 name, st.one_of(st.none(), st.sampled_from(VERS)), st.one_of(st.none(), st.none(), name),
                 st.integers(0, 5))
entry = st.one_of(
    name.map(lambda n: (n, 'd')),
    st.tuples(name, st.sampled_from(VERS)).map(lambda t: ('%s~%s' % t, 'd')),
    st.tuples(name, st.sampled_from(VERS)).map(lambda t: ('%s~%s' % t, 'd')),
    st.tuples(name, st.sampled_from(VERS + ['']), st.sampled_from(['f', 'l', 'x'])).map(lambda t: ('%s~%s' % t[:2], t[2])),
    st.sampled_from([('@foo.marker', 'f'), ('~foo', 'd'), ('.hidden', 'd'), ('other', 'd'), ('foo', 'f'), ('a~', 'd'), ('foo', 'l'),
                     ('bar~2~ext~repo', 'd')]))
NOISE = ['x = [1, 2]\n', '# comment bazel_dep(name = "foo")\n', 'foo(name = "foo", version = "1")\n', 'use_repo(x, "foo")\n',
         '"""doc"""\n', 'bazel_dep(version = "1.2")\n', 'bazel_dep(name = "")\n', 'archive_override(module_name = "foo")\n',
         'load("@foo//:x.bzl", "y")\n']


@st.composite
def workspace(draw):
  files = []
  for f in FILES:
    if draw(st.integers(0, 4)) < 3:
      continue
    files.append((f, draw(st.lists(st.one_of(decl, decl, decl, st.sampled_from(NOISE)), max_size=5))))
  ents = {}
  for n, k in draw(st.lists(entry, max_size=9)):
    ents.setdefault(n, k)
  if draw(st.booleans()):
    # The usual situation: what is declared is there in some form.
    for _, ds in files:
      for d in ds:
        if not isinstance(d, str):
          k = draw(st.integers(0, 4))
          n = {0: d[1], 1: '%s~%s' % (d[1], d[2] or '1'), 2: d[1] + '~override', 3: d[1] + '~7.7'}.get(k)
          if n:
            ents.setdefault(n, 'd')
  queries = draw(st.lists(st.tuples(st.sampled_from(['', '@']), st.sampled_from(NAMES + ['other', 'bar', 'nope', ''])),
                          max_size=5))
  return files, sorted(ents.items()), queries


def spell(d):
  if isinstance(d, str):
    return d
  rule, n, v, r, order = d
  at = ['name = "%s"' % n]
  if v is not None:
    at.append('version = "%s"' % v)
  if r is not None:
    at.append('repo_name = "%s"' % r)
  at.append(['dev_dependency = True', 'urls = ["http://x/foo"]'][order % 2])
  k = order % len(at)
  at = at[k:] + at[:k]
  return '%s(%s)\n' % (rule, ', '.join(at) if order < 3 else '\n    ' + ',\n    '.join(at) + ',\n')


def layout(ctx, files, ents):
  top = ctx.scratch()
  ws = os.path.join(top, 'ws')
  os.makedirs(os.path.join(top, 'out/execroot/main/bazel-out'))
  ext = os.path.join(top, 'out/external')
  os.makedirs(ws)
  os.makedirs(ext)
  os.makedirs(os.path.join(top, 'elsewhere'))
  os.symlink('../out/execroot/main/bazel-out', os.path.join(ws, 'bazel-out'))
  for n, k in ents:
    p = os.path.join(ext, n)
    if k == 'd':
      os.mkdir(p)
    elif k == 'f':
      open(p, 'w').close()
    elif k == 'l':
      os.symlink(os.path.join(top, 'elsewhere'), p)
    else:
      os.symlink('/nonexistent', p)
  for f, ds in files:
    open(os.path.join(ws, f), 'w').write(''.join(spell(d) for d in ds))
  return ws


def model(files, ents, stats):
  dirs = sorted(n for n, k in ents if k in 'dl')
  m = {}
  for _, ds in files:
    for d in ds:
      if isinstance(d, str) or d[0] not in ('bazel_dep', 'http_archive'):
        continue
      _, n, v, r, _ = d
      cand = ([n + '~' + v] if v else []) + [n, n + '~override'] + [x for x in dirs if x.startswith(n + '~')]
      there = [c for c in cand if c in dirs]
      if len(set(there)) != 1:
        stats.append(n)
      if there:
        m[(r or n, v or '')] = EXT + there[0]
  aug = dict(m)
  for d in dirs:
    if d.startswith(('.', '~')):
      continue
    p, _, v = d.partition('~')
    if not any(k[0] == p for k in aug):
      aug[(p, v)] = EXT + d
  return m, aug


def rows(m):
  return sorted((k[0], k[1], v) for k, v in m.items())


def find(m, q):
  c = sorted(k for k in m if k[0] == q.removeprefix('@'))
  return m[c[0]] if c and q else None


def run(ctx, case):
  files, ents, queries = case
  ws = layout(ctx, files, ents)
  stats = []
  m, aug = model(files, ents, stats)
  what = 'in %s with %s' % ({f: ''.join(map(spell, d)) for f, d in files}, ents)
  r = [x.decode() for x in ctx.call('workspace', ws, *[a + b for a, b in queries])]
  listing = ctx.call('cli', ws, 'fcsv', '--', 'workspace')
  if not files:
    ctx.eq(r, ['0'], 'no workspace')
    ctx.eq((listing[0], listing[1]), (b'1', b''), 'workspace listing without a workspace file')
    return
  ctx.eq(r[0], '1', 'workspace found ' + what)
  i = r.index('--')
  j = r.index('--', i + 1)
  ctx.eq([tuple(x.split('\t')) for x in r[1:i]], rows(m), 'declared projects ' + what)
  ctx.eq([tuple(x.split('\t')) for x in r[i + 1:j]], rows(aug), 'all projects ' + what)
  for (a, b), ans in zip(queries, r[j + 1:]):
    w = find(aug, a + b)
    ctx.eq(ans, '0' if w is None else '1' + w, 'directory of %r %s' % (a + b, what))
  ctx.eq(listing[0], b'0', 'status of listing')
  got = list(csv.reader(io.StringIO(listing[1].decode())))
  ctx.eq(got, [['project', 'version', 'directory']] + [[p, v or '-', d] for p, v, d in rows(aug)], 'listing ' + what)
  if stats:
    ctx.hit()


# -- restricted to what is referenced
ref = st.one_of(
    st.tuples(name, st.sampled_from(['//:x', '//a/b', '', '//a:b', '~1//x:y'])).map(lambda t: '@%s%s' % t),
    st.sampled_from([':l0', '//p:l1', 'x', '@nope//:y', '//foo', 'foo', '@//p:l0', '@bar//x', '//a:b:c', '@zlib//a//b', '@foo//a:b:c']))
rule = st.tuples(st.sampled_from(['cc_library', 'cc_binary', 'alias', 'load', 'my_rule', 'noname']),
                 st.lists(ref, max_size=4))
PKGS = ['', 'p', 'p/q', 'pq']


@st.composite
def referencing(draw):
  ents = {}
  for n, k in draw(st.lists(entry, min_size=2, max_size=9)):
    ents.setdefault(n, k)
  pk = {p: draw(st.lists(rule, max_size=4)) for p in PKGS if draw(st.integers(0, 3))}
  pats = [('...', 'rec', ''), ('//p/...', 'rec', 'p'), ('//p:all', 'pkg', 'p'), ('//:all', 'pkg', ''), ('//p:l1', 'one', 'p'),
          ('//p/q:all', 'pkg', 'p/q'), ('//pq:l0', 'one', 'pq')]
  # Sometimes all of this is in one of the external projects.
  _, aug = model([], sorted(ents.items()), [])
  own = draw(st.sampled_from([''] + sorted({k[0] for k in aug})))
  return sorted(ents.items()), sorted(pk.items()), draw(st.sampled_from(pats)), own


def run_filtered(ctx, case):
  ents, pk, (pat, kind, base), own = case
  ws = layout(ctx, [('MODULE.bazel', [])], ents)
  _, aug = model([], ents, [])
  want = set()
  if own:
    pat = '@' + own + (pat if pat.startswith('//') else '//' + pat)
    # Its own name in the references, so that it occurs.
    pk = [(p, [(r, [x.replace('@nope', '@' + own) for x in refs]) for r, refs in rules]) for p, rules in pk]
  for p, rules in pk:
    text = ''
    sel_pkg = p == base or kind == 'rec' and (base == '' or p.startswith(base + '/'))
    for i, (r, refs) in enumerate(rules):
      used = sel_pkg and (kind != 'one' or pat.endswith(':l%d' % i) or r == 'load')
      if r == 'load':
        text += 'load(%s)\n' % ', '.join('"%s"' % x for x in refs)
      elif r == 'alias':
        refs = refs[:1]
        text += 'alias(name = "l%d", actual = "%s")\n' % (i, refs[0] if refs else '')
      elif r == 'noname':
        used = False
        text += 'foo(deps = [%s])\n' % ', '.join('"%s"' % x for x in refs)
      else:
        text += '%s(deps = [%s], name = "l%d", srcs = ["@zlib//:s"])\n' % (r, ', '.join('"%s"' % x for x in refs), i)
      if used:
        for x in refs:
          if x.startswith('@') and not x.startswith('@//') and x not in ('@zlib//a//b', '@foo//a:b:c'):
            n = x[1:].split('/')[0].split('~')[0]
            k = sorted(e for e in aug if e[0] == n)
            if k and n != own:
              want.add((k[0][0], k[0][1], aug[k[0]]))
    d = os.path.join(ws, find(aug, own) if own else '.', p)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'BUILD'), 'w').write(text)
  r = ctx.call('cli', ws, 'fcsv', '--', 'workspace', pat)
  got = list(csv.reader(io.StringIO(r[1].decode())))[1:]
  ctx.eq([tuple(x) for x in got], [(a, b or '-', c) for a, b, c in sorted(want)],
         'projects referenced by %s in %s' % (pat, pk))
  if want and len(want) < len(aug):
    ctx.hit(*['external'] * bool(own))


def run_dir(ctx, s):
  r = [x.decode() for x in ctx.call('versiondir', s)]
  p, _, v = s.partition('~')
  ctx.eq(r, ['1', p, v] if p else ['0'], 'project of directory %r' % s)
  if '~' in s:
    ctx.hit()


SUBS = [
    Sub('workspace', workspace(), run, 7000, 120000),
    Sub('filtered', referencing(), run_filtered, 4000, 60000),
    Sub('directory', st.lists(st.sampled_from(['~', 'foo', '1.2', 'a', '~~', '.', '']), max_size=5).map(''.join), run_dir,
        2000, 5000),
]


def prepare():
  return {'driver': build.driver()}
