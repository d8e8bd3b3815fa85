"""Generated C++ workspaces with sources, and what dwyu should say about them."""
import shlex

from hypothesis import strategies as st

from checks.c10 import EXTS, pattern
from checks.models import cc, label, project

PKGS = [('', ''), ('', 'a'), ('', 'a/b'), ('', 'a/bc'), ('', 'q'), ('', 'b'), ('@ext', ''), ('@ext', 'a'), ('@ext', 'a/b')]
NAMES = ['a', 'b', 'lib', 'l2', 'ext', 'x/y', 'keep', 't', 'protobuf_headers', 'l_test', 'o d', "x'y"]
CC = ('cc_library', 'cc_binary', 'cc_test')
LIBS = ('cc_library', 'grpc_cc_library', 'cc_proto_library', 'cc_grpc_library', 'alias')
VIS = [None, '//a//b:__pkg__', '//visibility:public', '//visibility:private', '//a:__pkg__', '//a:__subpackages__', '//q:__pkg__', ':__pkg__',
       ':__subpackages__', '//a/b:__subpackages__', '@ext//a:__subpackages__', '//:__pkg__', '//:__subpackages__', '//q:friends']
# How a list is written; the last ones hide something.
HOW = ['plain'] * 30 + ['concat', 'concat', 'var', 'only default', 'glob', 'plus unknown', 'select', 'unknown', 'glob unknown', 'glob and unknown', 'element', 'comprehension', 'unknown plus']
PARTIAL = ('glob and unknown', 'plus unknown', 'unknown plus', 'select', 'element')
HIDDEN = ('glob unknown', 'unknown', 'comprehension')
COMMENTS = ['', '', '', '', '', '', '', '', '', '# keep', '#keep', '# build_cleaner: keep', '# why?', '# kept', '# f\udcfcr x: keep']
NOISE = ['', '// #include "no/n.h"\n', '/* #include "no/n.h" */\n', '#include <vector>\n', 'const char *x = "#include \\"no/n.h\\"";\n', 'int x;\n', '\n#if 0\n',
         'char c = \'"\';\n']


def visible_to(entry, owner, target):
  """Does a visibility entry of package owner allow target?"""
  if entry in (None, '//a//b:__pkg__'):  # A variable, or nonsense
    return False
  if entry == '//visibility:private':
    return target[:2] == owner
  if not entry.endswith('__'):  # public, or a group
    return True
  proj, path = owner
  where, what = entry.rsplit(':', 1)
  if '//' in where:
    pr, path = where.split('//')
    proj = pr or proj
  return label.Pattern('package' if what == '__pkg__' else 'recursive', proj, path).match_package(*target[:2])


@st.composite
def rules(draw, pk, calm=False):
  """[(package, file name, default visibility, [rule])]; a rule is a dict. Few special things if calm."""
  often = (lambda n: False) if calm else (lambda n: draw(st.integers(0, n)) == 0)
  names = {p: draw(st.lists(st.sampled_from(NAMES), max_size=5, unique=True)) for p in pk}
  targets = [p + (n,) for p in pk for n in names[p]]
  hidden = [p + ('gone',) for p in pk[:1]] + [('@none', 'x', 'y')]
  # More often things that work.
  pickdep = st.sampled_from(targets * 4 + hidden) if targets else st.sampled_from(hidden)
  count = 0
  out = []
  for p in pk:
    rs = []
    shared = []
    here = set()
    for n in names[p]:
      kind = draw(st.sampled_from(['cc_library'] * (30 if calm else 9) + ['cc_binary', 'cc_binary', 'cc_test', 'cc_test', 'alias', 'alias', 'proto', 'grpc',
                                                        'grpc_cc_library', 'my_library']))
      r = {'kind': kind, 'name': n, 'style': draw(st.integers(0, 23))}

      def files(ext, most):
        nonlocal count
        o = []
        for _ in range(draw(st.integers(0, most))):
          count += 1
          f = draw(st.sampled_from(['', '', 'inc/', 'src/'])) + 'f%d%s' % (draw(st.sampled_from([count, 1])), ext)
          if f in here:  # no file is in two rules here, but the same may be in other packages.
            f = 'f%d%s' % (count, ext)
          if f in here:
            continue
          here.add(f)
          o.append(f)
        return o
      if kind in CC or kind in ('grpc_cc_library', 'my_library'):
        r['srcs'] = files('.cc', 2)
        if kind in CC and draw(st.integers(0, 3)) == 0:
          r['srcs'] += files('.h', 1)
        if kind not in ('cc_binary', 'cc_test'):
          r['hdrs'] = files('.h', 2) or files('.h', 1)
          if shared and draw(st.integers(0, 3)) == 0:
            r['hdrs'].append(draw(st.sampled_from(shared)))
          shared += r['hdrs']
          if draw(st.integers(0, 7)) == 0:
            r['textual_hdrs'] = files('.inc', 1)
          if kind == 'grpc_cc_library' and draw(st.booleans()):
            r['public_hdrs'] = files('.h', 1)
          if r['hdrs'] and draw(st.integers(0, 5)) == 0:
            r['hdrs'] = [':' + h for h in r['hdrs']]
          k = draw(st.integers(0, 9))
          if k == 0:
            r['includes'] = [draw(st.sampled_from(['inc', '.', 'src']))]
          elif k == 1:
            r['strip_include_prefix'] = draw(st.sampled_from(['inc', '/' + p[1] if p[1] else '/inc']))
          elif k == 2:
            r['include_prefix'] = draw(st.sampled_from(['yolo', 'foo/bar', 'a']))
        if kind in CC:
          r['how'] = 'plain' if calm else draw(st.sampled_from(HOW))
      elif kind == 'alias':
        r['actual'] = draw(pickdep)
      else:
        r['protos'] = files('.proto', 2)
      if kind in CC or kind in ('proto', 'grpc_cc_library', 'my_library'):
        r['deps'] = draw(st.lists(st.tuples(pickdep, st.integers(0, 11), st.sampled_from(COMMENTS)), max_size=4, unique_by=lambda x: x[0]))
        if r['deps'] and draw(st.integers(0, 15)) == 0:
          r['deps'].append((r['deps'][0][0], draw(st.integers(0, 11)), ''))
        r['oneline'] = draw(st.integers(0, 4)) == 0
      if often(7):
        r['testonly'] = draw(st.sampled_from([True, 1, False]))
      if often(11):
        r['alwayslink'] = draw(st.sampled_from([True, 1, False, 0]))
      if often(11):
        r['deprecation'] = 'use something else'
      if often(2):
        r['visibility'] = draw(st.lists(st.sampled_from(VIS), min_size=1, max_size=2))
      rs.append(r)
    out.append((p, draw(st.sampled_from(['BUILD', 'BUILD.bazel'])),
                draw(st.just(None) if calm else st.sampled_from([None, None, None, '//visibility:public', '//visibility:private', '//a:__subpackages__'])), rs))
  return out


@st.composite
def case(draw):
  some = draw(st.sampled_from([PKGS, PKGS, [('', 'a'), ('', 'b'), ('', 'a/b')], [('', ''), ('', 'a'), ('@ext', 'a')]]))
  pk = draw(st.lists(st.sampled_from(some), min_size=1, max_size=5, unique=True))
  calm = draw(st.booleans())
  w = draw(rules(pk, calm))
  m = Model(w, {})
  paths = sorted(m.providers(m.all_rules()))
  src = {}
  for p, _, _, rs in w:
    for r in rs:
      if r['kind'] not in CC:
        continue
      own = [x.removeprefix(':') for k in ('hdrs', 'srcs') for x in r.get(k, []) if x.endswith('.h')]
      own = own + [cc.full(p, x) for x in own]
      here = [x for x in paths if p[1] and x.startswith(p[1] + '/')]
      # Something that is known to be in the dependencies.
      near = sorted(x for x, ts in m.all_headers.items() for d in r['deps'] if d[0] in ts)
      # Confusable with own files.
      base = {x.rsplit('/', 1)[-1] for x in own}
      like = [x for x in near or paths if x.rsplit('/', 1)[-1] in base and x not in own]
      for f in r.get('srcs', []) + r.get('hdrs', []) + r.get('textual_hdrs', []):
        f = cc.full(p, f)
        if (p[0], f) in src:
          continue
        inc = []
        for _ in range(draw(st.integers(0, 1 if calm else 3))):
          k = draw(st.integers(0, 33 if calm else 39))
          if k < 8 and like:
            s = draw(st.sampled_from(like))
          elif k < 14 and near:
            s = draw(st.sampled_from(near))
          elif k < 24 and paths:
            s = draw(st.sampled_from(paths))
          elif k < 28 and here:
            s = draw(st.sampled_from(here))[len(p[1]) + 1:]
          elif k < 34 and own:
            s = draw(st.sampled_from(own))
          elif k == 39:
            s = draw(st.sampled_from(['no/way.h', 'way.h', '../u.h', 'gen/out.h']))
          else:
            continue
          inc.append((s, draw(st.sampled_from(NOISE))))
        src[(p[0], f)] = (inc, '' if calm else draw(st.sampled_from([''] * 26 + ['bazel-bin/', 'bazel-bin/', 'bazel-genfiles/', 'bazel-out/host/bin/', None])))
  kind = draw(st.sampled_from(['rec', 'rec', 'rec', 'all', 'one', 'glob']))
  pkg = draw(st.sampled_from(pk)) if kind != 'rec' or draw(st.integers(0, 3)) == 0 else ('', '')
  n = draw(st.sampled_from([r['name'] for x in w for r in x[3] if x[0] == pkg] or NAMES))
  return w, sorted(src.items()), kind, pkg, n, draw(st.integers(0, 5)) == 0


GENERATED = ['bazel-out/host/bin/', 'bazel-bin/', 'bazel-genfiles/']


@st.composite
def twins(draw):
  """Few libraries with headers whose paths are suffixes of each other."""
  pk = draw(st.lists(st.sampled_from([('', p) for p in ('', 'a', 'b', 'a/b', 'b/a', 'a/b/a', 'ab')] + [('@ext', ''), ('@ext', 'b')]), min_size=2, max_size=3, unique=True))
  heads = ['x.h', 'x.h', 'b/x.h', 'a/x.h', 'y.h', 'ax.h', 'b/y.h']
  libs = []
  for p in pk:
    for n, h in enumerate(draw(st.lists(st.lists(st.sampled_from(heads), min_size=1, max_size=2, unique=True), min_size=1, max_size=2))):
      libs.append((p, 'l%d' % n, h))
  seen, rs, src, by = set(), {}, {}, []
  for p, n, h in libs:
    h = [x for x in h if (p, x) not in seen]
    seen |= {(p, x) for x in h}
    if h:
      by.append((p, n, h))
  if not by:
    by = [(pk[0], 'l0', ['x.h'])]
  provided = sorted({cc.full(p, x) for p, n, h in by for x in h})
  for p, n, h in by:
    kind = draw(st.sampled_from(['cc_library'] * 5 + ['cc_test', 'cc_binary']))
    deps = [((q[0], q[1], m), draw(st.integers(0, 11)), '') for q, m, _ in by if (q, m) != (p, n) and draw(st.integers(0, 2))]
    r = {'kind': kind, 'name': n, 'style': draw(st.integers(0, 23)), 'srcs': [n + '.cc'], 'how': 'plain', 'deps': deps, 'oneline': draw(st.booleans())}
    r['srcs' if kind != 'cc_library' else 'hdrs'] = h if kind == 'cc_library' else r['srcs'] + h
    if kind == 'cc_library' and draw(st.integers(0, 7)) == 0:
      r['includes'] = ['.']
    rs.setdefault(p, []).append(r)
    for f in set(r['srcs'] + r.get('hdrs', [])):
      inc = draw(st.lists(st.sampled_from(provided), max_size=1 + f.endswith('.cc'), unique=True))
      src[p[0], cc.full(p, f)] = ([(i, '') for i in inc], '')
  w = [(p, 'BUILD', None, rs[p]) for p in rs]
  kind, pkg, n = 'rec', draw(st.sampled_from([('', ''), by[0][0]])), 'l0'
  return w, sorted(src.items()), kind, pkg, n, False


@st.composite
def shared(draw):
  """Several libraries that provide the same headers."""
  a, b = ('', 'a'), draw(st.sampled_from([('', 'a'), ('', 'b'), ('', 'a/b')]))
  heads = ['x.h', 'y.h', 'z.h']
  rs, src = {a: []}, {('', 'a/' + h): ([], '') for h in heads}
  libs = []
  for i in range(draw(st.integers(2, 5))):
    r = {'kind': 'cc_library', 'name': 'l%d' % i, 'style': draw(st.integers(0, 23)), 'srcs': [], 'how': 'plain', 'deps': [], 'oneline': False,
         'hdrs': draw(st.lists(st.sampled_from(heads), min_size=1, max_size=3, unique=True))}
    k = draw(st.integers(0, 9))
    if k == 0:
      r['deprecation'] = 'old'
    elif k == 1:
      r['testonly'] = True
    elif k == 2:
      r['visibility'] = [draw(st.sampled_from(VIS))]
    rs[a].append(r)
    libs.append(a + (r['name'],))
    if draw(st.integers(0, 7)) == 0:
      rs[a].append({'kind': 'alias', 'name': 'al%d' % i, 'style': draw(st.integers(0, 23)), 'actual': libs[-1]})
      libs.append(a + ('al%d' % i,))
  for i in range(draw(st.integers(1, 2))):
    n = 't%d' % i
    deps = draw(st.lists(st.tuples(st.sampled_from(libs), st.integers(0, 11), st.sampled_from([''] * 6 + COMMENTS)), max_size=3, unique_by=lambda x: x[0]))
    rs.setdefault(b, []).append({'kind': draw(st.sampled_from(['cc_library', 'cc_binary', 'cc_test'])), 'name': n, 'style': draw(st.integers(0, 23)),
                                 'srcs': [n + '.cc'], 'how': 'plain', 'deps': deps, 'oneline': draw(st.integers(0, 4)) == 0})
    inc = draw(st.lists(st.sampled_from(heads), max_size=3, unique=True))
    src['', cc.full(b, n + '.cc')] = ([('a/' + h, '') for h in inc], '')
  order = draw(st.booleans())
  return [(p, 'BUILD', None, rs[p][::-1] if order else rs[p]) for p in rs], sorted(src.items()), 'rec', ('', ''), 'l0', False


def label_text(t, p, style):
  # That nobody knows this one can also be because it is no label.
  return project.NO_LABEL[style // 2 % len(project.NO_LABEL)] if t == ('@none', 'x', 'y') and style % 2 else project.spell(t, p, style)


class Model:
  """w as generated, with deps as lists [text, target, comment] that edits change."""

  def __init__(self, w, src):
    self.w = w
    self.src = src
    self.rules = {}
    self.deps = {}
    self.default = {p: d for p, _, d, _ in w}
    for p, _, _, rs in w:
      for r in rs:
        t = p + (r['name'],)
        if r['kind'] == 'proto':
          self.rules[p + (r['name'] + '_proto',)] = dict(r, kind='proto_library', deps=[], srcs=r['protos'])
          self.rules[t] = dict(r, kind='cc_proto_library')
          self.deps[t] = [[':%s_proto' % r['name'], p + (r['name'] + '_proto',), '']]
        elif r['kind'] == 'grpc':
          self.rules[p + (r['name'] + '_proto',)] = dict(r, kind='proto_library', deps=[], srcs=r['protos'])
          self.rules[t] = dict(r, kind='cc_grpc_library', srcs=[':%s_proto' % r['name']])
        else:
          self.rules[t] = r
          if r['kind'] != 'alias':
            self.deps[t] = [[label_text(x, p, s), x, c] for x, s, c in r['deps']]
    self.all_headers = self.providers(self.all_rules())

  def all_rules(self):
    out = []
    for t, r in self.rules.items():
      at = r
      if r['kind'] in ('cc_proto_library', 'cc_grpc_library'):
        at = {'protos': [t[:2] + (t[2] + '_proto',)]}
      out.append((t[:2], r['kind'], t[2], at))
    return out

  def providers(self, rs):
    return cc.headers(rs)

  # -- what the tool gets to see
  def loaded(self, pat):
    there = {x[0] for x in self.w}
    pkgs = {p for p in there if pat.match_package(*p)}
    todo = [t for t in self.rules if t[:2] in pkgs and pat.match(*t)]
    seen = set(todo)
    while todo:
      t = todo.pop()
      if t[:2] in there:
        pkgs.add(t[:2])
      if t not in self.rules:
        continue
      r = self.rules[t]
      for x in ([r['actual']] if r['kind'] == 'alias' else [d[1] for d in self.deps.get(t, [])]):
        if x not in seen:
          seen.add(x)
          todo.append(x)
    return pkgs

  def chain(self, t, pkgs):
    """Targets on the way of aliases; None at the end if that is not known."""
    out = []
    while True:
      if t in out:
        return out + [None]
      if t not in self.rules or t[:2] not in pkgs:
        return out + [None]
      out.append(t)
      if self.rules[t]['kind'] != 'alias':
        return out
      t = self.rules[t]['actual']

  def permitted(self, t, x, pkgs):
    r = self.rules[x]
    if r.get('deprecation'):
      return False
    mine = self.rules[t]
    if not mine.get('testonly') and mine['kind'] != 'cc_test':
      for c in self.chain(x, pkgs):
        if c is not None and self.rules[c].get('testonly'):
          return False
    if t[:2] == x[:2]:
      return True
    if x[2] == 'protobuf_headers':
      return False
    vis = r.get('visibility')
    if vis is None:
      vis = self.default[x[:2]] and [self.default[x[:2]]]
    # Unknown is public.
    return not vis or not {*vis} - {None, '//a//b:__pkg__'} or any(visible_to(v, x[:2], t) for v in vis)

  def removable(self, x, pkgs):
    """True, False or None if it may be either."""
    for c in self.chain(x, pkgs):
      if c is None:
        return False
      r = self.rules[c]
      if r['kind'] not in LIBS:
        return None if r['kind'] in CC else False
      if r.get('alwayslink') or (r['kind'] == 'cc_library' and not r.get('hdrs') and not r.get('textual_hdrs')):
        return False
      if r['kind'] == 'cc_library' and not r['hdrs']:
        return None  # only textual headers
    return True

  def lookup(self, heads, inc):
    """Providers of an include; 'ambiguous' if several are equally similar."""
    if inc in heads:
      return heads[inc]
    a = inc.split('/')[::-1]
    best, found = 1, []
    for h in heads:
      b = h.split('/')[::-1]
      n = 0
      while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
      if n > best:
        best, found = n, []
      if n == best and n > 1:
        found.append(heads[h])
    if not found:
      return None
    return found[0] if all(f == found[0] for f in found) else 'ambiguous'

  def target(self, t, pkgs, heads):
    """(needs, unresolved, ambiguous): needs are lists of permitted providers per include, with all providers."""
    r = self.rules[t]
    how = r['how']
    # In addition to the ones that are hidden
    bad = how in PARTIAL + HIDDEN
    srcs = [] if how in HIDDEN else r['srcs']
    if how in ('glob', 'glob and unknown'):  # only what is in the source tree
      srcs = [f for f in srcs if self.src[(t[0], cc.full(t[:2], f))][1] == '']
    files = srcs + r.get('hdrs', []) + r.get('textual_hdrs', [])
    own = {f for f in files} | {t[1] + '/' + f for f in files}
    needs = []
    ambiguous = False
    for f in files:
      inc, where = self.src[(t[0], cc.full(t[:2], f))]
      if where is None or (t[0] and where):
        bad = True
        continue
      for s, _ in inc:
        if s in own:
          continue
        ts = self.lookup(heads, s) or self.lookup(heads, cc.full(t[:2], s))
        if ts == 'ambiguous':
          ambiguous = True
          continue
        if ts is None:
          bad = True
          continue
        if t in ts:
          continue
        ok = frozenset(x for x in ts if self.permitted(t, x, pkgs))
        needs.append((ok, frozenset(ts), s))
        if not ok:
          bad = True
    return needs, bad, ambiguous

  # -- the files
  def write(self, top):
    files = {}
    for p, fn, default, rs in self.w:
      t = 'load(":x.bzl", "UNKNOWN")\n'
      if default:
        t += 'package(default_visibility = [%s])\n' % project.lit(default)
      for r in rs:
        t += self.text(p, r)
      # Files from rules that might have been run or not.
      gen = sorted({f for r in rs if r['kind'] in CC for k in ('srcs', 'hdrs') for f in r.get(k, [])
                    if self.src.get((p[0], cc.full(p, f)), (0, ''))[1] != ''})
      if not p[0] and len(gen) % 3 != 2:
        gen += ['gen/out.h'] * (p == ('', ''))
        for i, f in enumerate(gen):
          t += project.rule_text('genrule', [('name', 'generated_%d' % i), ('outs', [f]), ('cmd', 'true')], i)
      files[project.build_path(p, fn)] = t
    for (proj, f), (inc, where) in self.src.items():
      if where is None or (proj and where):
        continue
      files[(proj, where + f)] = ''.join('%s#include "%s"\n' % (n, s) for s, n in inc) + 'int end;\n'
      if not proj and not where and len(f) % 3 == 0:  # left-over of an earlier build: the source counts
        files[(proj, GENERATED[len(f) // 3 % 3] + f)] = '#include "no/way.h"\nint end;\n'
    return project.write(top, EXTS, files), files

  def text(self, p, r):
    n, t = r['name'], p + (r['name'],)
    a = [('name', n)]
    for k in ('hdrs', 'textual_hdrs', 'public_hdrs', 'includes', 'strip_include_prefix', 'include_prefix', 'alwayslink', 'testonly',
              'deprecation', 'visibility'):
      if k in r:
        a.append((k, r[k] if k != 'visibility' else [('id', 'UNKNOWN') if x is None else x for x in r[k]]))
    if 'how' in r and r['style'] == 17:
      a.append(('', 'positional'))
    pre = ''
    how = r.get('how', 'plain')
    if 'srcs' in r:
      s = r['srcs']
      one, rest = project.lit(s[:1]), project.lit(s[1:])
      v = {'plain': project.lit(s), 'concat': one + ' + ' + rest, 'var': 'V_' + ''.join(c if c.isalnum() else '_' for c in n).upper(),
           'only default': 'select({"//conditions:default": %s})' % project.lit(s), 'glob': 'glob(%s)' % project.lit(s), 'glob unknown': ['glob(UNKNOWN)', 'glob(include = ["no.cc"][0:])', 'glob(exclude = ["x"], include = f())'][r['style'] % 3],
           'glob and unknown': 'glob(%s + UNKNOWN)' % project.lit(s),
           'plus unknown': project.lit(s) + ' + UNKNOWN', 'unknown plus': 'UNKNOWN + ' + project.lit(s),
           'select': one + ' + select({"//:win": ["hidden.cc"], "//conditions:default": %s})' % rest, 'unknown': 'UNKNOWN',
           'element': '[UNKNOWN, %s]' % ', '.join(map(project.lit, s)), 'comprehension': '[x + ".cc" for x in ["a"]]'}[how]
      if how == 'var':
        pre = '%s = %s\n' % (v, project.lit(s))
      a.append(('srcs', ('expr', v)))
    if r['kind'] == 'alias':
      a.append(('actual', label_text(r['actual'], p, r['style'])))
    elif r['kind'] in ('proto', 'grpc'):
      pn = n + '_proto'
      s = project.rule_text('proto_library', [('name', pn), ('srcs', r['protos'])], r['style'])
      a.append(('deps' if r['kind'] == 'proto' else 'srcs', [':' + pn]))
      return s + project.rule_text('cc_%s_library' % r['kind'], a, r['style'])
    else:
      ds = self.deps[t]
      if r['oneline']:
        c = [d[2] for d in ds if d[2]]
        d = '[%s%s]' % (', '.join(project.lit(d[0]) for d in ds), '  %s\n' % c[0] if c else '')
      else:
        d = '[\n%s    ]' % ''.join('        %s,  %s\n' % (project.lit(d[0]), d[2]) for d in ds)
      if ds or r['style'] % 2:
        a.append(('deps', ('expr', d)))
    return pre + project.rule_text(r['kind'], a, r['style'])

  def keeps(self, t):
    """Targets marked by comments."""
    r, out = self.rules[t], set()
    ds = self.deps[t]
    if r['oneline']:
      c = [d[2] for d in ds if d[2]]
      return {d[1] for d in ds} if c and c[0].endswith('keep') else set()
    return {d[1] for d in ds if d[2].endswith('keep')}

  def apply(self, edits):
    for op, t, text, x in edits:
      if op == 'remove':
        self.deps[t] = [d for d in self.deps[t] if d[0] != text]
      else:
        self.deps[t].append([text, x, ''])


def edits(ctx, m, out, what, targets):
  """Parses the output; each line must be a valid command."""
  rel = {project.show(t): t for t in targets}
  res = []
  for line in out.decode().splitlines():
    try:
      w = shlex.split(line)
      if len(w) != 3 or w[0] != 'buildozer':
        raise ValueError('three words')
      # A blank in an argument has a backslash.
      op, attr, lab = w[1].replace('\\ ', '\0').split(' ')
      lab = lab.replace('\0', ' ')
      if op not in ('add', 'remove') or attr != 'deps' or not lab:
        raise ValueError('command')
    except ValueError as e:
      ctx.fail('no buildozer command (%s) %r: %s' % (e, line, what))
    if w[2] not in rel:
      ctx.fail('%r does not name a C++ target of the pattern: %s' % (line, what))
    t = rel[w[2]]
    if op == 'add':
      x = [y for y in m.rules if (':' + y[2] if y[:2] == t[:2] else '@' * (bool(t[0]) and not y[0]) + project.show(y)) == lab]
      if len(x) != 1:
        ctx.fail('%r: label is not the shortest form of a target: %s' % (line, what))
      res.append((op, t, lab, x[0]))
    else:
      x = [d for d in m.deps[t] if d[0] == lab]
      if not x:
        ctx.fail('%r: is not in deps of %r: %s' % (line, m.deps[t], what))
      res.append((op, t, lab, x[0][1]))
  if len(set(res)) != len(res):
    ctx.fail('an edit is there twice in %r: %s' % (out, what))
  return res


class Run:
  """One run of dwyu on the current state of the model."""

  def __init__(self, ctx, m, kind, pkg, n, keep):
    args, pat = pattern(kind, pkg, n)
    ws, files = m.write(ctx.scratch())
    self.what = '%s%s in %r' % ('-k ' * keep, args, {k: v for k, v in sorted(files.items())})
    self.status, out, self.info, self.err = ctx.call('cli', ws, *['k'] * keep, '--', 'dwyu', *args)
    self.pkgs = m.loaded(pat)
    self.targets = [t for t, r in m.rules.items() if pat.match(*t) and r['kind'] in CC]
    self.heads = cc.headers([r for r in m.all_rules() if r[0] in self.pkgs])
    self.out = out
    self.edits = edits(ctx, m, out, self.what, self.targets)


def start(ctx, c):
  w, src, kind, pkg, n, keep = c
  m = Model(w, dict(src))
  return m, Run(ctx, m, kind, pkg, n, keep)


def simple(needs):
  """All alternatives are the same or have nothing in common."""
  s = {x[0] for x in needs}
  return not any(a != b and a & b for a in s for b in s)
