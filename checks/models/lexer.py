"""Reference lexer for the Starlark subset, written from the language rules."""
import re

KEYWORDS = {b'not', b'in', b'for', b'and', b'or', b'if', b'else'}
SPACE = b' \t\n\v\f\r'
IDENT = re.compile(rb'[A-Za-z_][A-Za-z0-9_]*')
NOTIN = re.compile(rb'not([ \t\n\v\f\r]+)in(?![A-Za-z0-9_])')
GAP = re.compile(rb'(?:[ \t\n\v\f\r\\]|#[^\n]*)*')
STR1 = {q: re.compile(rb'[rR]?' + q + rb'(?:[^\\' + q + rb']|\\.)*' + q, re.S)
        for q in (b'"', b"'")}
STR3 = {q: re.compile(rb'[rR]?' + q * 3 + rb'(?:[^\\]|\\.)*?' + q * 3, re.S)
        for q in (b'"', b"'")}
TWO = (b'==', b'!=', b'<=', b'>=')
ONE = b'(){}[],:+-*/.%|<>=!'


def lex(c):
  """List of (kind, offset, size, newline_before)."""
  out = []
  pos = 0
  n = len(c)
  while True:
    g = GAP.match(c, pos)
    nl = b'\n' in g.group(0)
    pos = g.end()
    if pos >= n:
      out.append(('<<EOF>>', n, 0, nl))
      return out
    ch = c[pos:pos + 1]
    m = None
    q = None
    if ch in b'"\'':
      q = ch
    elif ch in b'rR' and n - pos > 2 and c[pos + 1:pos + 2] in (b'"', b"'"):
      q = c[pos + 1:pos + 2]
    if q:
      start = pos + (1 if ch in b'rR' else 0)
      if c[start:start + 3] == q * 3:
        m = STR3[q].match(c, pos)
      else:
        m = STR1[q].match(c, pos)
      if m:
        out.append(('string', pos, m.end() - pos, nl))
        pos = m.end()
      else:
        out.append(('<<ERROR>>', pos, n - pos, nl))
        pos = n
      continue
    m = NOTIN.match(c, pos)
    if m:
      out.append(('not in', pos, m.end() - pos, nl))
      pos = m.end()
      continue
    m = IDENT.match(c, pos)
    if m:
      t = m.group(0)
      out.append((t.decode() if t in KEYWORDS else 'ident', pos, len(t), nl))
      pos = m.end()
      continue
    if ch.isdigit():
      end, ok = number_end(c, pos)
      out.append(('number' if ok else '<<ERROR>>', pos, end - pos, nl))
      pos = end
      continue
    if c[pos:pos + 2] in TWO:
      out.append((c[pos:pos + 2].decode(), pos, 2, nl))
      pos += 2
      continue
    if ch in ONE:
      out.append((ch.decode(), pos, 1, nl))
    else:
      out.append(('<<ERROR>>', pos, 1, nl))
    pos += 1


def number_end(c, pos):
  """Decimal, 0x hex, 0o octal, with at most one decimal point; a second one
  makes it an error up to there."""
  p = pos + 1
  digits = b'0123456789'
  if c[pos:pos + 1] == b'0' and c[p:p + 1] in (b'x', b'o') and c[p:p + 1]:
    if c[p:p + 1] == b'x':
      digits += b'abcdefABCDEF'
    p += 1
  dot = False
  while p < len(c) and (c[p:p + 1] in digits or c[p:p + 1] == b'.'):
    if c[p:p + 1] == b'.':
      if dot:
        return p, False
      dot = True
    p += 1
  return p, True


def linecol(c, off):
  """1-based line and column of offset."""
  line = c.count(b'\n', 0, off) + 1
  col = off - (c.rfind(b'\n', 0, off) + 1) + 1
  return line, col
