"""C25: the compilation database lists every C++ source with usable flags."""
import json
import os

from hypothesis import strategies as st

from checks.c10 import EXTS, NAMES, PKGS, Graph, pattern
from checks.models import project
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C25'
RULE = ('Workspaces of packages in the main and two external projects; rules of any kind with srcs and hdrs (plain lists, :labels, globs, '
        'concatenations; names with blanks, quotes, backslashes, control and non-ASCII characters, some missing on disk), includes and '
        'include_prefix, deps in any spelling and through aliases; a generated .bazelrc with options of generic and special '
        'configurations, comments and continued lines. The database is read by a strict JSON parser and compared with the '
        'description; compile-flags must list the same. Non-trivial: at least two entries and an include directory of a dependency or an option.')
ASSUMPTIONS = ['Which extra entries there are for sources that do not exist (generated ones, labels of other rules) is not specified.',
               'Options in .bazelrc with blanks, quotes or backslashes are only required to keep the output valid.',
               'Include directories of targets that are not needed by the pattern may be listed as well.']

KINDS = ['cc_library'] * 4 + ['cc_binary', 'cc_test', 'alias', 'alias', 'my_rule', 'proto_library', 'filegroup']
CC = ('cc_library', 'cc_binary', 'cc_test')
STEMS = ['a', 'b', 'c d', 'q"t', 'back\\s', "it's", 'ä', 'tab\t', 'nl\x1f', 'x.y', 'q+r', '-m', 'ß€', 'del\x7f']
OPTS = ['-std=c++20', '-Wall', '-DX=1', '-DX=1=2', '-DY=a:b', '-DX=1=3', '-I/opt/x', '-fno-rtti', '-Wno-error=foo,bar', '-Dä=€', '-std=c++17']
ODD = ['"-DQ=a b"', "'-DS=x y'", '-DB=a\\b', '-DB=\\"x\\"', '-DT=a\tb', '/EHsc', '"', '-D\x01']


@st.composite
def bazelrc(draw):
  """([line], [(option, used)], odd)"""
  if draw(st.integers(0, 3)) == 0:
    return None
  lines, used, odd = [], [], False
  for _ in range(draw(st.integers(0, 6))):
    kind = draw(st.sampled_from(['use'] * 5 + ['config', 'comment', 'other', 'odd', 'continued', 'configcont', 'empty']))
    opts = draw(st.lists(st.sampled_from(OPTS), min_size=1, max_size=2))
    cmd = draw(st.sampled_from(['build', 'test', 'common', 'build', 'run', '  build']))
    sep = draw(st.sampled_from(['=', ' ', '=', '  ']))
    flag = draw(st.sampled_from(['--cxxopt', '--cxxopt', '--host_cxxopt']))
    words = ['%s%s%s' % (flag, sep, o) for o in opts]
    if kind == 'use':
      lines.append('%s%s%s' % (cmd, draw(st.sampled_from([' ', '   ', '\t', ' --jobs=8 '])), '  '.join(words)))
      used += opts
    elif kind == 'config':
      lines.append('%s:%s %s' % (cmd, draw(st.sampled_from(['asan', 'macos'])), ' '.join(words)))
    elif kind == 'comment':
      lines.append(draw(st.sampled_from(['#build ', '# build ', ' # ', '#'])) + ' '.join(words))
    elif kind == 'other':
      lines.append(cmd + ' ' + draw(st.sampled_from(['--linkopt=-lm', '--conlyopt=-std=c11', '--features=layering_check', '--action_env=X=--y'])))
    elif kind == 'continued':
      lines += [cmd + ' \\'] + ['  %s \\' % x for x in words] + ['  --jobs=2']
      used += opts
    elif kind == 'configcont':
      lines += [cmd + ':cfg \\'] + ['  %s \\' % x for x in words] + ['  --jobs=2']
    elif kind == 'odd':
      lines.append('%s %s%s%s' % (cmd, flag, sep, draw(st.sampled_from(ODD))))
      odd = True
    else:
      lines.append('')
  return lines, used, odd


@st.composite
def case(draw):
  pk = draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=6, unique=True))
  names = {p: draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)) for p in pk}
  all_ = [p + (n,) for p in pk for n in names[p]]
  gone = [('', 'gone', 'a'), ('@none', '', 'x')]
  tgt = st.one_of(*[st.sampled_from(all_)] * 4 + [st.sampled_from(gone)])
  w, extra = [], []
  for p in pk:
    rs = []
    for n in names[p]:
      kind = draw(st.sampled_from(KINDS))
      deps = draw(st.lists(st.tuples(tgt, st.integers(0, 11)), max_size=1 if kind == 'alias' else 3))
      rs.append((kind, n, deps, draw(st.integers(0, 15))))
      x = {}
      if kind not in ('alias',):
        x['srcs'] = draw(st.lists(st.tuples(st.sampled_from(STEMS + ['sub/e', 'sub/f g']), st.sampled_from(['.cc', '.cc', '.cpp', '.h', '.proto'])), max_size=3))
        x['hdrs'] = draw(st.lists(st.tuples(st.sampled_from(STEMS), st.just('.h')), max_size=2))
        x['how'] = draw(st.sampled_from(['glob', 'glob', 'list', 'list', 'concat', 'label']))
        x['gone'] = draw(st.integers(0, 5)) == 0
        if draw(st.integers(0, 2)) == 0:
          x['includes'] = draw(st.lists(st.sampled_from(['inc', '.', 'src/inc', 'in c', "i'x", '..', 'ä']), min_size=1, max_size=2))
        if draw(st.integers(0, 5)) == 0:
          x['include_prefix'] = draw(st.sampled_from(['p', 'p/q']))
      extra.append(((p, n), x))
    w.append((p, draw(st.sampled_from(['BUILD', 'BUILD.bazel'])), rs))
  pkg = draw(st.sampled_from(pk))
  kind = draw(st.sampled_from(['none', 'rec', 'rec', 'all', 'one', 'glob']))
  if kind == 'rec' and draw(st.booleans()):
    pkg = ('', '')
  return w, extra, kind, pkg, draw(st.sampled_from(names.get(pkg, ['a']))), draw(bazelrc())


def simple(f):
  return not set(f) & set('"\\') and min(f) >= ' '


def run(ctx, c):
  w, extra, kind, pkg, n, rc = c
  extra = dict(extra)
  args, pat = pattern(kind, pkg, n)
  files, disk = {}, {}
  listed, exist = {}, {}
  for p, fn, rules in w:
    t = ''
    for k, name, deps, style in rules:
      x = extra[p, name]
      labels = [project.spell(d, p, s) for d, s in deps]
      at = [('name', name)]
      if k == 'alias':
        at += [('actual', labels[0])] if labels else []
      else:
        at.append(('deps', [project.NO_LABEL[style % 6]] * (style % 5 == 1) + labels))
      own = []
      for a, key in (('srcs', x.get('srcs', [])), ('hdrs', x.get('hdrs', []))):
        # Every rule has its own names where there are globs, so that these only see them.
        mine = 'r%d.%s.%s' % (NAMES.index(name), a, PKGS.index(p) if x.get('how') == 'glob' else 'x')
        l = []
        for stem, e in key:
          f = '%s.%s%s' % (stem, mine, e)
          if f not in l and (x['how'] == 'glob' or simple(f)):
            l.append(f)
        if not l:
          continue
        there = l
        if x['how'] != 'glob' and x['gone']:
          there = l[1:]
        for f in there:
          files[p[0], (p[1] + '/' if p[1] else '') + f] = ''
        if x['how'] == 'glob':
          at.append((a, ('expr', 'glob(["**/*.%s.*"])' % mine)))
        elif x['how'] == 'concat':
          at.append((a, ('expr', '%s + %s' % (project.lit(l[:1]), project.lit(l[1:])))))
        elif x['how'] == 'label':
          at.append((a, [':' + f for f in l] + ['//x:fg']))
        else:
          at.append((a, l))
        own += [(f, f in there) for f in l]
      if 'includes' in x:
        at.append(('includes', x['includes']))
      if 'include_prefix' in x:
        at.append(('include_prefix', x['include_prefix']))
      listed[p + (name,)] = own if k in CC else []
      t += project.rule_text(k, at, style)
    files[project.build_path(p, fn)] = t
  ws = os.path.realpath(project.write(ctx.scratch(), EXTS, files))
  if rc:
    with open(ws + '/.bazelrc', 'w', newline='') as f:
      f.write('\n'.join(rc[0]) + '\n')
  what = '%s, .bazelrc %r in %r' % (args, rc, files)

  g = Graph(w, pat, 10**9)
  rules = {p + (r[1],): r for p, _, rs in w for r in rs}

  def path(p, f):
    return project.where(EXTS, p[0], p[1] + '/' + f if p[1] else f)

  want, scope = set(), set()
  for t, own in listed.items():
    # Without pattern, everything that is loaded is in scope.
    if t[:2] in (g.parsed if kind == 'none' else g.initial) and (kind == 'none' or pat.match(*t)):
      for f, there in own:
        (want if there else scope).add(path(t, f))
  dirs, may = {'.', 'bazel-bin'}, set()
  for t in rules:
    x = extra[t[:2], t[2]]
    d = {path(t, i) for i in x.get('includes', [])}
    (dirs if t in g.nodes and rules[t][0] in CC else may).update(d)
    may.add('bazel-bin/%s%s/_virtual_includes/%s' % ('external/%s/' % t[0][1:] if t[0] else '', t[1], t[2]))
    for y, _ in rules[t][2]:
      if y[0] in dict(EXTS):
        o = {project.EXT + dict(EXTS)[y[0]], 'bazel-bin/external/' + y[0][1:]}
        (dirs if t in g.nodes and rules[t][0] in CC + ('alias',) else may).update(o)

  def real(d):
    return os.path.realpath(os.path.join(ws, d))

  def incdirs(found, what):
    r = [real(d) for d in found]
    need = {real(d) for d in dirs}
    if need - set(r):
      ctx.fail('include directories %s are missing in %s of %s' % (sorted(need - set(r)), found, what))
    if set(r) - need - {real(d) for d in may}:
      ctx.fail('unexpected include directories %s of %s' % (sorted(set(r) - need - {real(d) for d in may}), what))

  status, out, info, err = ctx.call('cli', ws, '--', 'compilation-db', *args)
  ctx.eq((status, err), (b'0', b''), 'status of %s' % what)
  try:
    db = json.loads(out.decode())
    by = {}
    for e in db:
      if sorted(e) != ['arguments', 'directory', 'file'] or any(type(s) is not str for s in [e['file'], e['directory']] + e['arguments']):
        raise ValueError('entry %r' % e)
      if e['file'] in by:
        raise ValueError('two entries of %s' % e['file'])
      by[e['file']] = e
  except (ValueError, TypeError, KeyError) as e:
    ctx.fail('no valid database: %s in %r of %s' % (e, out, what))
  if want - set(by):
    ctx.fail('no entry for %s in %s of %s' % (sorted(want - set(by)), sorted(by), what))
  if [f for f in by if f not in want and os.path.exists(os.path.join(ws, f))]:
    ctx.fail('entries %s, expected %s: %s' % (sorted(by), sorted(want), what))
  used = None
  if rc is None or not rc[2]:
    used = list(dict.fromkeys(rc[1])) if rc else []
  blobs = set()
  for f, e in by.items():
    ctx.eq(e['directory'], ws, 'directory of %s in %s' % (f, what))
    a = e['arguments']
    ctx.eq(a[-2:], ['-c', f], 'source in arguments of %s' % what)
    blobs.add(tuple(a[:-2]))
  if len(blobs) > 1:
    ctx.fail('arguments differ: %s of %s' % (blobs, what))
  status, out, info, err = ctx.call('cli', ws, '--', 'compile-flags', *args)
  ctx.eq((status, err), (b'0', b''), 'status of compile-flags of %s' % what)
  flags = out.decode().split('\n')[:-1]
  fdirs = []
  while flags and flags[-1].startswith('-I') and not flags[-1].startswith('-I/'):
    fdirs.insert(0, flags.pop()[2:])
  if used is not None:
    ctx.eq(flags, used, 'options in compile-flags of %s' % what)
  if used is not None or not any('\t' in x or '\x01' in x for x in rc[0]):
    incdirs(fdirs, 'compile-flags of ' + what)
  for b in blobs:
    q = b.index('-iquote') if '-iquote' in b else len(b)
    opts, inc = list(b[:q]), b[q:]
    if len(inc) % 2 or set(inc[::2]) - {'-iquote'}:
      ctx.fail('arguments %s of %s' % (b, what))
    ctx.eq(opts[len(opts) - len(flags):], flags, 'options in the database of %s' % what)
    ctx.eq(list(inc[1::2]), fdirs, 'include directories in database and flags of %s' % what)
    if any('cxxopt' in x or x.startswith('-std') or x == '-Wall' for x in opts[:len(opts) - len(flags)]):
      ctx.fail('options %s twice: %s' % (opts, what))
  if len(by) > 1 and (len(dirs) > 2 or used):
    ctx.hit('entries%d' % min(len(by), 5), *['options'] * bool(used), *['dirs'] * (len(dirs) > 2),
            *['escaped'] * any(json.dumps(f, ensure_ascii=False) != '"%s"' % f for f in want))


SUBS = [Sub('database', case(), run, 5000, 120000)]


def prepare():
  return {'driver': build.driver()}
