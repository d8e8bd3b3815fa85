"""Client of the in-process driver (driver/wire.h framing)."""
import os
import select
import struct
import subprocess
import tempfile
import time

ENV = {
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LC_ALL': 'C.UTF-8',
    'HOME': '/nonexistent',
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:'
                    'allocator_may_return_null=0:detect_stack_use_after_return=0:'
                    'quarantine_size_mb=8:hard_rss_limit_mb=6000:print_summary=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
}


class Crash(Exception):
  """The code under test crashed (signal, sanitizer report, CHECK) or hung."""


class Driver:
  def __init__(self, binary, timeout=60):
    self.binary = binary
    self.timeout = timeout
    self.proc = None
    self.calls = 0

  def _start(self):
    self.err = tempfile.TemporaryFile()
    self.proc = subprocess.Popen([self.binary], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=self.err,
                                 cwd='/', env=ENV)

  def close(self):
    if self.proc:
      try:
        self.proc.stdin.close()
        self.proc.stdout.close()
      except OSError:
        pass
      self.proc.kill()
      self.proc.wait()
      self.err.close()
      self.proc = None

  def _stderr(self):
    self.err.seek(0)
    data = self.err.read()[-200000:].decode('utf-8', 'replace')
    keep = [l for l in data.splitlines()
            if any(k in l for k in ('ERROR', 'runtime error', 'CHECK-FAILURE',
                                    'SUMMARY', 'Assertion', 'terminate',
                                    'what()', '/repo/', 'DRIVER:'))]
    return '\n'.join(keep[:20])

  def _die(self, why):
    self.proc.kill() if why.startswith('no answer') else None
    rc = self.proc.wait()
    msg = '%s (exit %s)\n%s' % (why, rc, self._stderr())
    self.close()
    raise Crash(msg)

  def call(self, op, *args):
    if self.proc is None:
      self._start()
    items = [op.encode()]
    for a in args:
      if isinstance(a, bytes):
        items.append(a)
      elif isinstance(a, bool):
        items.append(b'1' if a else b'0')
      else:
        items.append(str(a).encode('utf-8', 'surrogateescape'))
    buf = [struct.pack('<I', len(items))]
    for i in items:
      buf.append(struct.pack('<I', len(i)))
      buf.append(i)
    self.calls += 1
    try:
      self.proc.stdin.write(b''.join(buf))
      self.proc.stdin.flush()
    except BrokenPipeError:
      self._die('driver died')
    self.deadline = time.monotonic() + self.timeout
    n = struct.unpack('<I', self._read(4))[0]
    out = []
    for _ in range(n):
      ln = struct.unpack('<I', self._read(4))[0]
      out.append(self._read(ln))
    return out

  def _read(self, n):
    fd = self.proc.stdout.fileno()
    chunks = []
    while n:
      left = self.deadline - time.monotonic()
      if left <= 0 or not select.select([fd], [], [], left)[0]:
        self._die('no answer within %ds' % self.timeout)
      c = os.read(fd, min(n, 1 << 16))
      if not c:
        self._die('driver crashed')
      chunks.append(c)
      n -= len(c)
    return b''.join(chunks)


def run(cmd, cwd='/', env=None, stdin=b'', timeout=120):
  """Runs a process; returns (rc, stdout, stderr). Negative rc / sanitizer
  exit are for the caller to judge."""
  e = dict(ENV)
  if env:
    e.update(env)
  try:
    p = subprocess.run(cmd, cwd=cwd, env=e, input=stdin, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
  except subprocess.TimeoutExpired:
    raise Crash('no answer within %ds: %s' % (timeout, cmd))
  return p.returncode, p.stdout, p.stderr
