"""C11: lib-headers maps every provided header to the libraries that provide it."""
import json

from hypothesis import strategies as st

from checks.c10 import EXTS, pattern
from checks.models import cc, label, project
from vlib import build
from vlib.harness import Sub

PROPERTY = 'C11'
RULE = ('Workspaces with cc_library, grpc_cc_library, proto_library with cc_proto_library and cc_grpc_library, aliases (of aliases, of '
        'protobuf libraries, in loops, across packages and projects) and other rules; headers in sub directories, with leading colon, shared '
        'by libraries, as textual or public headers; include directories, strip and add prefixes relative to the package and to the root '
        'in several spellings. The listing is compared with the rules written down in a model, for generated patterns with and '
        'without -r and evaluation. Non-trivial: at least two pairs, one of which is an alias, a generated header or a modified path.')
ASSUMPTIONS = ['proto_library and the C++ library made from it are in the same package and one to one (documented).',
               'A directory in includes or strip_include_prefix means one below the package; one that is only valid relative to the project root is tested as such.',
               'Headers are files of their package, not labels of other packages.']

PKGS = [('', ''), ('', 'a'), ('', 'a/b'), ('', 'p/q'), ('', 'inc'), ('', 'my/strings'), ('@ext', ''), ('@ext', 'a'), ('@e2', 'absl/strings')]
NAMES = ['a', 'b', 'lib', 'l2', 'ext', 'x/y', 'strings']
HDRS = ['x.h', 'y.h', 'inc/x.h', 'inc/sub/y.h', 'src/z.h', ':x.h', ':inc/w.h', 'string_view.h', 'x.hh', 'inc.h', 'includes/x.h', 'a b.h', 'inc/inc/q.h']
DIRS = ['inc', 'inc/', './inc', 'inc/sub', '.', './', 'src', 'nope', 'in', 'inc/inc']
hdrs = st.lists(st.sampled_from(HDRS), max_size=3, unique=True)


@st.composite
def space(draw):
  pk = draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=5, unique=True))
  names = {p: draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)) for p in pk}
  targets = [p + (n,) for p in pk for n in names[p]] + [('', 'gone', 'a')]
  out = []
  for p in pk:
    rules = []
    for n in names[p]:
      kind = draw(st.sampled_from(['cc_library', 'cc_library', 'cc_library', 'grpc_cc_library', 'alias', 'alias', 'proto', 'grpc', 'both',
                                   'cc_binary', 'my_library', 'proto_library']))
      at = {}
      if kind in ('cc_library', 'grpc_cc_library', 'my_library', 'cc_binary'):
        at['hdrs'] = draw(hdrs)
        if draw(st.integers(0, 3)) == 0:
          at['textual_hdrs'] = draw(hdrs)
        if p[1].endswith('strings') and draw(st.integers(0, 2)) == 0:
          for k in ('hdrs', 'textual_hdrs'):
            at[k] = sorted({*at.get(k, []), 'string_view.h'})
        if kind == 'grpc_cc_library':
          at['public_hdrs'] = draw(hdrs)
        at['srcs'] = ['s.cc', 'private.h']

        def directory():
          k = draw(st.integers(0, 7))
          d = draw(st.sampled_from(DIRS))
          if k == 0:
            return '/' + (p[1] + '/' if p[1] else '') + d.removeprefix('./').rstrip('./')
          if k == 1 and p[1]:
            return p[1].split('/')[0] + draw(st.sampled_from(['', '/']))  # only relative to the project
          if k == 2 and p[1]:
            return p[1] + '/' + d.removeprefix('./')
          return d
        if draw(st.integers(0, 2)) == 0:
          at['strip_include_prefix'] = directory()
        if draw(st.integers(0, 3)) == 0:
          at['include_prefix'] = draw(st.sampled_from(['yolo', 'a/b', '.', './', 'q/', 'y.d', './r', '././r', '/r']))
        elif draw(st.integers(0, 2)) == 0:
          at['includes'] = [directory() for _ in range(draw(st.integers(1, 2)))]
      elif kind == 'alias':
        at['actual'] = draw(st.sampled_from(targets))
      else:
        at['srcs'] = draw(st.lists(st.sampled_from(['m.proto', ':n.proto', 'sub/m.proto', 'm.x.proto', 'list', ':filegroup']), max_size=3, unique=True))
      rules.append((kind, n, at, draw(st.integers(0, 23))))
    out.append((p, draw(st.sampled_from(['BUILD', 'BUILD.bazel'])), rules))
  return out


@st.composite
def case(draw):
  w = draw(space())
  pkg = draw(st.sampled_from([x[0] for x in w]))
  return (w, draw(st.sampled_from(['none', 'rec', 'rec', 'all', 'one', 'glob'])), pkg, draw(st.sampled_from(NAMES)), draw(st.booleans()))


def both_ways(p, at, f):
  """A directory that is one relative to the package and another one relative to the root."""
  for d in [at.get('strip_include_prefix', '')] + at.get('includes', []):
    if d and not d.startswith('/'):
      a, b = cc.below(p, f, d), cc.below(('', ''), f, d)
      if b is not None and a is None:
        yield d


def only_one(p, at, d):
  every = [cc.full(p, h) for k in ('hdrs', 'textual_hdrs', 'public_hdrs') for h in at.get(k, [])]
  in_package = any(cc.below(p, f, d) is not None for f in every)
  in_root = any(cc.below(('', ''), f, d) is not None and cc.below(p, f, d) is None for f in every)
  return '/' + d.removeprefix('./') if in_package and in_root else d


def write(w, elaborate):
  """BUILD files and the rules for the model."""
  files, rules = {}, []
  for p, fn, rs in w:
    t = ''
    for kind, n, at, style in rs:
      a = [('name', n)]
      if kind in ('proto', 'grpc', 'both', 'proto_library'):
        pn = n + ('_proto' if kind != 'proto_library' else '')
        parts = [project.rule_text('proto_library', [('name', pn), ('srcs', at['srcs'])], style)]
        rules.append((p, 'proto_library', pn, at))
        ref = [project.NO_LABEL[style % 6]] * (style % 5 == 1) + [project.spell(p + (pn,), p, style)]
        if kind in ('proto', 'both'):
          parts.append(project.rule_text('cc_proto_library', [('name', n), ('deps', ref)], style))
          rules.append((p, 'cc_proto_library', n, {'protos': [p + (pn,)]}))
        if kind in ('grpc', 'both'):
          gn = n + ('_grpc' if kind == 'both' else '')
          parts.append(project.rule_text('cc_grpc_library', [('name', gn), ('srcs', ref), ('deps', [':' + n])], style))
          rules.append((p, 'cc_grpc_library', gn, {'protos': [p + (pn,)]}))
        t += ''.join(parts[::-1] if style % 2 else parts)
        continue
      if kind == 'alias':
        t += project.rule_text('alias', a + [('actual', project.spell(at['actual'], p, style))], style)
        rules.append((p, kind, n, at))
        continue
      at = dict(at)
      if p == ('', 'inc'):  # Not sometimes relative to the package and sometimes to the root.
        if 'strip_include_prefix' in at:
          at['strip_include_prefix'] = only_one(p, at, at['strip_include_prefix'])
        if 'includes' in at:
          at['includes'] = [only_one(p, at, d) for d in at['includes']]
      for k, v in at.items():
        if k == 'hdrs' and elaborate and len(v) > 1 and style % 3 == 0:
          v = ('expr', '[%s] + %s' % (project.lit(v[0]), project.lit(v[1:])))
        a.append((k, v))
      t += project.rule_text(kind, a, style)
      # Directories that only exist relative to the root.
      fix = lambda d: '/' + d if any(d in both_ways(p, at, cc.full(p, h)) for h in at['hdrs'] + at.get('textual_hdrs', []) + at.get('public_hdrs', [])) else d
      at2 = dict(at)
      if 'strip_include_prefix' in at:
        at2['strip_include_prefix'] = fix(at['strip_include_prefix'])
      if 'includes' in at:
        at2['includes'] = [fix(d) for d in at['includes']]
      rules.append((p, kind, n, at2))
    files[project.build_path(p, fn)] = t
  return files, rules


def run(ctx, c):
  w, kind, pkg, n, follow = c
  elaborate = len(n) % 2 == 0
  args, pat = pattern(kind, pkg, n)
  if kind == 'none':
    pat = label.Pattern('all')
  files, rules = write(w, elaborate)
  if follow:
    # A target that refers to all packages.
    every = ['%s//%s:whatever' % (p[0] or '@', p[1]) for p, _, _ in w]
    files[('', 'zz/BUILD')] = project.rule_text('filegroup', [('name', 'zz'), ('deps', every)])
    args, kind = ['//zz'], 'one'
  ws = project.write(ctx.scratch(), EXTS, files)
  flags = ['fjson'] + ['e'] * elaborate + ['r1'] * follow
  what = '%s %s in %r' % (flags, args, files)
  scope = [r for r in rules if follow or (not r[0][0] if kind == 'none' else pat.match_package(*r[0]))]
  want = sorted((h, project.show(t)) for h, ts in cc.headers(scope).items() for t in ts if follow or kind == 'none' or pat.match(*t))
  r = ctx.call('cli', ws, *flags, '--', 'lib-headers', *args)
  ctx.eq(r[0], b'0', 'status ' + what)
  got = []
  seen = set()
  for l in r[1].decode().splitlines():
    o = json.loads(l)
    if o['header'] in seen:
      ctx.fail('%r is there twice: %s' % (o['header'], what))
    seen.add(o['header'])
    got += [(o['header'], x) for x in o['providing-rule']]
  ctx.eq(sorted(got), want, 'lib-headers ' + what)
  kinds = {k for _, k, _, _ in scope} & {'alias', 'cc_proto_library', 'cc_grpc_library', 'grpc_cc_library'}
  mod = any(set(at) & {'includes', 'include_prefix', 'strip_include_prefix'} for _, _, _, at in scope)
  if len(want) > 1 and (kinds or mod):
    ctx.hit(*sorted(kinds), *['path'] * mod)


SUBS = [Sub('headers', case(), run, 9000, 200000)]


def prepare():
  return {'driver': build.driver()}
