"""Generated workspaces: packages with rules, in the main and external projects.

A target is (project, path, name), e.g. ('@ext', 'a/b', 'lib').
"""
import os

from checks.models import label

EXT = 'bazel-out/../../../external/'


def lit(v):
  """A value as written in a BUILD file. ('id', x) and ('expr', x) are verbatim."""
  if v is True or v is False or isinstance(v, int):
    return str(v)
  if isinstance(v, str):
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
  if isinstance(v, tuple):
    return v[1]
  if isinstance(v, dict):
    return '{%s}' % ', '.join('%s: %s' % (lit(a), lit(b)) for a, b in v.items())
  return '[%s]' % ', '.join(lit(x) for x in v)


def rule_text(kind, attrs, style=0):
  """attrs: [(name, value)]; style picks the formatting."""
  if attrs:
    k = style // 4 % len(attrs)
    attrs = attrs[k:] + attrs[:k]
  a = ['%s = %s' % (n, lit(v)) if n else lit(v) for n, v in attrs]
  s = style % 4
  if s == 0:
    return '%s(%s)\n' % (kind, ', '.join(a))
  if s == 1:
    return '%s(\n%s)\n\n' % (kind, ''.join('    %s,\n' % x for x in a))
  if s == 2:
    return '%s(\n%s\n)\n' % (kind, ',\n'.join('    %s  # %s' % (x, 'name = "c", deps = [":zz"]') if i == 1 and i + 1 == len(a) else '    ' + x
                                              for i, x in enumerate(a)))
  return '# rule\n%s( %s , )\n' % (kind, ' , '.join(a)) if a else '%s()\n' % kind


# What is no label at all.
NO_LABEL = ['//a:b:c', '//a//b', '@ext//a//b:c', '/', '//c:x:', '::']


def spell(target, context, style):
  """One of the ways to write the label of target in package context."""
  (p, path, n), (cp, cpath) = target, context
  pre = '' if p == cp else p or '@'
  o = ['%s//%s:%s' % (pre, path, n)]
  if path and path.split('/')[-1] == n:
    o += ['%s//%s' % (pre, path)] * 2
  if (p, path) == (cp, cpath):
    o += [':' + n] * 3
    if '/' not in n and not n.startswith('@'):
      o.append(n)
  if p and not path and n == p[1:]:
    o += [p] * 2
  if p:
    o += ['%s//%s:%s' % (p, path, n), '%s~1.0//%s:%s' % (p, path, n)]
  else:
    o.append('@//%s:%s' % (path, n))
  if path:
    o.append('%s//%s/:%s' % (pre, path, n))
  return o[style % len(o)]


def show(t):
  return label.canonical(*t)


def write(top, exts, files, workspace='MODULE.bazel', wstext=''):
  """exts: [('@ext', 'ext~1.0')]; files: {(project, relative file): text}. Returns the workspace directory."""
  ws = os.path.join(top, 'ws')
  os.makedirs(os.path.join(top, 'out/execroot/main/bazel-out'))
  os.makedirs(os.path.join(top, 'out/external'))
  os.makedirs(ws)
  os.symlink('../out/execroot/main/bazel-out', os.path.join(ws, 'bazel-out'))
  root = {'': ws}
  for n, d in exts:
    root[n] = os.path.join(top, 'out/external', d)
    os.makedirs(root[n])
  with open(os.path.join(ws, workspace), 'w') as f:
    f.write(wstext)
  for (proj, rel), text in files.items():
    p = os.path.join(root[proj], rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
      f.write(text.encode('utf-8', 'surrogateescape') if isinstance(text, str) else text)
  return ws


def where(exts, proj, rel):
  """Path of a file as bant sees it from the workspace directory."""
  return rel if not proj else '%s%s/%s' % (EXT, dict(exts)[proj], rel)


def build_path(pkg, name='BUILD'):
  return (pkg[0], (pkg[1] + '/' if pkg[1] else '') + name)
