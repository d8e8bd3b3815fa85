"""How positions are counted and shown."""


def pos(c, off):
  """0-based line and column (bytes)."""
  line = c.count(b'\n', 0, off)
  return line, off - (c.rfind(b'\n', 0, off) + 1)


def show(c, off, size):
  """'line:col:', 'line:col-col:' or 'line:col:line:col:' of a range; the end
  shown is inclusive and only given if it covers more than one column."""
  l, col = pos(c, off)
  el, ecol = pos(c, off + size)
  ecol -= 1
  s = '%d:%d' % (l + 1, col + 1)
  if l == el:
    if ecol > col:
      s += '-%d' % (ecol + 1)
  else:
    s += ':%d:%d' % (el + 1, ecol + 1)
  return s + ':'


def line_of(c, off, size):
  """The whole source line(s) around a range, without the line break."""
  b = c.rfind(b'\n', 0, off) + 1
  e = c.find(b'\n', off + size)
  return c[b:e if e >= 0 else len(c)]
