"""Labels, patterns and visibility as documented."""
import re

from hypothesis import strategies as st

PROJECTS = ['', '', '', '@absl', '@foo', '@a', '@rules_cc', '@foo_bar', '@foo.x']
COMPONENTS = ['foo', 'bar', 'foobar', 'fo', 'a', 'b-c', 'x_y', 'third_party', 'foo.bar', 'bar2', 'absl', '+x',
              '..foo', 'ä']
NAMES = ['foo', 'bar', 'foobar', 'a', 'lib.a', 'x-y', 'bar/baz', 'b_test', 'absl', 'foo~1', 'BUILD', 'bazaar', 'ab.h',
         'a+b', 'axh', 'x(1)', 'baz', 'ä', 'rules_cc', 'foo.x', 'all_tests', 'pkg', '_x', 'a.b*c'[:3]]

project = st.sampled_from(PROJECTS)
path = st.lists(st.sampled_from(COMPONENTS), max_size=3).map('/'.join)
name = st.sampled_from(NAMES)


def last_element(proj, pth):
  if pth:
    return pth.rsplit('/', 1)[-1]
  return proj[1:]


def canonical(proj, pth, nm):
  """Shortest full form."""
  if nm == last_element(proj, pth) and nm:
    if not pth:
      return proj
    return proj + '//' + pth
  return '%s//%s:%s' % (proj, pth, nm)


@st.composite
def spelled(draw):
  """(text, context project, context path, (project, path, name))."""
  cproj, cpath = draw(project), draw(path)
  kind = draw(st.sampled_from(['abs', 'abs', 'rel', 'bare', 'ext', 'short', 'extshort', 'extroot', 'main',
                               'version', 'slashes', 'noslash', 'extcolon']))
  p, n = draw(path), draw(name)
  ext = draw(project.filter(bool))
  if kind == 'abs':
    return '//%s:%s' % (p, n), cproj, cpath, (cproj, p, n)
  if kind == 'rel':
    return ':' + n, cproj, cpath, (cproj, cpath, n)
  if kind == 'bare':
    n = n.replace('/', '_')
    return n, cproj, cpath, (cproj, cpath, n)
  if kind == 'ext':
    return '%s//%s:%s' % (ext, p, n), cproj, cpath, (ext, p, n)
  if kind == 'short' and p:
    return '//' + p, cproj, cpath, (cproj, p, p.rsplit('/', 1)[-1])
  if kind == 'extshort' and p:
    return ext + '//' + p, cproj, cpath, (ext, p, p.rsplit('/', 1)[-1])
  if kind == 'extroot':
    return ext, cproj, cpath, (ext, '', ext[1:])
  if kind == 'main':
    return '@//%s:%s' % (p, n), cproj, cpath, ('', p, n)
  if kind == 'version':
    v = draw(st.sampled_from(['~', '~1.2.3', '~1~x~y']))
    return '%s%s//%s:%s' % (ext, v, p, n), cproj, cpath, (ext, p, n)
  if kind == 'slashes' and p:
    return '//%s/:%s' % (p, n), cproj, cpath, (cproj, p, n)
  if kind == 'noslash' and len(p) > 1:
    return '%s:%s' % (p, n), cproj, cpath, (cproj, p, n)
  return '%s:%s' % (ext, n), cproj, cpath, (ext, '', n)


def glob_regex(g):
  return re.compile('.*'.join(re.escape(x) for x in g.split('*')), re.S)


class Pattern:
  """kind: exact, package, recursive, glob, all."""

  def __init__(self, kind, proj='', pth='', nm=''):
    self.kind, self.proj, self.pth, self.nm = kind, proj, pth, nm

  def match_package(self, proj, pth):
    if self.kind == 'all':
      return True
    if proj != self.proj:
      return False
    if self.kind == 'recursive':
      return self.pth == '' or pth == self.pth or pth.startswith(self.pth + '/')
    return pth == self.pth

  def match(self, proj, pth, nm):
    if not self.match_package(proj, pth):
      return False
    if self.kind == 'exact':
      return nm == self.nm
    if self.kind == 'glob':
      return bool(glob_regex(self.nm).fullmatch(nm))
    return True


def patterns(proj_strategy=project, path_strategy=path):
  @st.composite
  def gen(draw):
    pr, p, n = draw(proj_strategy), draw(path_strategy), draw(name)
    k = draw(st.sampled_from(['exact', 'exact', 'package', 'recursive', 'recursive', 'glob', 'glob', 'short',
                              'bare']))
    noslash = draw(st.integers(0, 3)) == 0 and not pr and len(p) > 1
    root = '' if noslash else pr + '//'
    if k == 'exact':
      return '%s%s:%s' % (root, p, n), ('exact', pr, p, n)
    if k == 'package':
      w = draw(st.sampled_from(['all', '*', '__pkg__']))
      return '%s%s:%s' % (root, p, w), ('package', pr, p, '')
    if k == 'recursive':
      if draw(st.integers(0, 3)) == 0:
        return '%s%s:__subpackages__' % (root, p), ('recursive', pr, p, '')
      return root + (p + '/' if p else '') + '...', ('recursive', pr, p, '')
    if k == 'glob':
      cut = draw(st.integers(0, len(n)))
      cut2 = draw(st.integers(cut, len(n)))
      star = draw(st.sampled_from(['*', '*', '**']))
      g = draw(st.sampled_from([n[:cut] + star + n[cut2:], n[:cut] + star, star + n[cut2:] if n[cut2:] else n + star,
                                n[:cut] + '*' + n[cut:cut2] + '*' + n[cut2:]]))
      if set(g) == {'*'}:
        g = n + '*'
      return '%s%s:%s' % (root, p, g), ('glob', pr, p, g)
    if k == 'short' and p and '/' in root + p:
      return root + p, ('exact', pr, p, p.rsplit('/', 1)[-1])
    if pr:
      return pr, ('exact', pr, '', pr[1:])
    return draw(st.sampled_from([('...', ('recursive', '', '', '')), (':all', ('package', '', '', '')),
                                 ('//...', ('recursive', '', '', '')), (':' + n, ('exact', '', '', n)),
                                 ('//:all', ('package', '', '', ''))]))
  return gen()
