"""What C++ rules mean: headers they provide, who may see them."""
from checks.models import label, project


def full(pkg, f):
  f = f[1:] if f.startswith(':') else f
  return pkg[1] + '/' + f if pkg[1] else f


def norm(p):
  while p.startswith('./') or p.startswith('/'):
    p = p[2:] if p.startswith('./') else p[1:]
  return p


def below(pkg, f, d):
  """Path of f relative to directory d (of the package; with / in front: of the project)."""
  absolute = d.startswith('/')
  d = norm(d).rstrip('/')
  if d == '.':
    d = ''
  if not absolute:
    d = '/'.join(x for x in (pkg[1], d) if x)
  if not d:
    return f
  return f[len(d) + 1:] if f.startswith(d + '/') else None


def include_paths(pkg, h, at):
  """Paths under which a header can be included."""
  f = full(pkg, h)
  strip, pre = at.get('strip_include_prefix'), at.get('include_prefix')
  s = below(pkg, f, strip) if strip else None
  if pre:
    if s is None:
      s = below(pkg, f, '.')
    return {norm(pre + '/' + s)}
  out = {f if s is None else s}
  for d in at.get('includes', []):
    x = below(pkg, f, d)
    if x is not None:
      out.add(x)
  return {norm(x) for x in out}


def headers(rules):
  """rules: [(pkg, kind, name, attrs with deps etc. already as targets)] -> {include path: set of targets}"""
  m = {}
  for pkg, kind, n, at in rules:
    t = pkg + (n,)
    if kind in ('cc_library', 'grpc_cc_library'):
      hs = list(at.get('hdrs', [])) + list(at.get('textual_hdrs', [])) + list(at.get('public_hdrs', []))
      if pkg[1].endswith('absl/strings') and 'string_view.h' in at.get('hdrs', []) and 'string_view.h' in at.get('textual_hdrs', []):
        hs = [h for h in hs if h != 'string_view.h']
      for h in hs:
        for p in include_paths(pkg, h, at):
          m.setdefault(p, set()).add(t)
    elif kind in ('cc_proto_library', 'cc_grpc_library'):
      mid = '.grpc' if kind == 'cc_grpc_library' else ''
      for pl in at.get('protos', []):
        for p2, k2, n2, at2 in rules:
          if k2 == 'proto_library' and p2 + (n2,) == pl and p2 == pkg:
            for s in at2.get('srcs', []):
              if s.endswith('.proto'):
                for suf in ('.pb.h', '.proto.h'):
                  m.setdefault(full(pkg, s)[:-6] + mid + suf, set()).add(t)
  by = {}
  for pkg, kind, n, at in rules:
    if kind == 'alias' and at.get('actual'):
      by.setdefault(at['actual'], []).append(pkg + (n,))
  for ts in m.values():
    todo = list(ts)
    while todo:
      for a in by.get(todo.pop(), []):
        if a not in ts:
          ts.add(a)
          todo.append(a)
  return m
