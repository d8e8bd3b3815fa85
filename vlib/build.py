"""Builds what the checks need from /repo's current working tree.

Objects are cached by content (source, every header of the tree, shims, flags)
under /verif/build (ignored by git), so a change anywhere in the tree is always
compiled in, and an unchanged tree is not compiled twice.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SHIM = os.path.join(VERIF, 'shim')
RE2 = '/usr/lib/x86_64-linux-gnu/libre2.so.10'
ABSL = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
JOBS = max(2, os.cpu_count() or 2)

CXX = 'g++-13' if shutil.which('g++-13') else 'g++'
CLANG = 'clang++' if shutil.which('clang++') else 'clang++-18'
BASE = ['-std=c++23', '-w', '-fno-exceptions', '-fno-rtti', '-I' + SHIM, '-I' + VERIF]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr',
       '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
FLAVOURS = {
    # sanitized, used for nearly everything
    'asan': (CXX, BASE + ['-O1', '-g1'] + SAN),
    # plain, for the things run many times as a process
    'plain': (CXX, BASE + ['-O1', '-g1']),
    # threads
    'tsan': (CXX, BASE + ['-O1', '-g1', '-fsanitize=thread']),
    # libFuzzer
    'fuzz': (CLANG, BASE + ['-O1', '-g1', '-fsanitize=fuzzer-no-link'] + SAN),
}


class BuildError(Exception):
  pass


def _sha(*parts):
  h = hashlib.sha256()
  for p in parts:
    if isinstance(p, str):
      p = p.encode()
    h.update(len(p).to_bytes(8, 'little'))
    h.update(p)
  return h.hexdigest()


def _read(path):
  with open(path, 'rb') as f:
    return f.read()


def _files(root, pred):
  out = []
  for d, dirs, files in os.walk(root):
    dirs[:] = sorted(x for x in dirs if not x.startswith(('_', '.')))
    for f in sorted(files):
      if pred(f):
        out.append(os.path.join(d, f))
  return out


def repo_sources():
  """All non-test C++ sources below bant/ (relative to the repo)."""
  srcs = _files(os.path.join(REPO, 'bant'),
                lambda f: f.endswith('.cc') and not f.endswith('_test.cc'))
  return [os.path.relpath(s, REPO) for s in srcs]


_hdr_hash = None


def header_hash():
  global _hdr_hash
  if _hdr_hash is None:
    hdrs = _files(os.path.join(REPO, 'bant'), lambda f: f.endswith('.h'))
    hdrs += _files(SHIM, lambda f: True)
    hdrs += _files(os.path.join(VERIF, 'driver'), lambda f: f.endswith('.h'))
    parts = []
    for h in hdrs:
      parts += [os.path.relpath(h, '/'), _read(h)]
    _hdr_hash = _sha(*parts)
  return _hdr_hash


def _run(cmd, cwd):
  p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, text=True, errors='replace')
  if p.returncode != 0:
    raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))


def _place(cmd, out, cwd):
  tmp = '%s.%d.tmp' % (out, os.getpid())
  _run(cmd + ['-o', tmp], cwd)
  os.rename(tmp, out)


def compile_obj(flavour, src, incs=()):
  """src: absolute path or path relative to the repo. Returns object file."""
  cxx, flags = FLAVOURS[flavour]
  path = src if os.path.isabs(src) else os.path.join(REPO, src)
  key = _sha(flavour, cxx, ' '.join(flags), src, _read(path), header_hash())
  objdir = os.path.join(BUILD, 'obj')
  os.makedirs(objdir, exist_ok=True)
  obj = os.path.join(objdir, key[:32] + '.o')
  if not os.path.exists(obj):
    _place([cxx] + flags + ['-I' + REPO, '-c', path], obj, REPO)
  else:
    os.utime(obj)
  return obj


def _gc(keep=900):
  """Keeps the cache bounded."""
  objs = glob.glob(os.path.join(BUILD, 'obj', '*.o'))
  bins = glob.glob(os.path.join(BUILD, 'bin', '*'))
  for lst, n in ((objs, keep), (bins, 60)):
    if len(lst) <= n:
      continue
    lst.sort(key=lambda p: os.path.getmtime(p), reverse=True)
    for p in lst[n:]:
      try:
        os.unlink(p)
      except OSError:
        pass


def build_binary(name, flavour, srcs, link=(), lib=True):
  """Builds a binary of the repo's library sources (without bant.cc unless
  listed) plus srcs; returns its path."""
  os.makedirs(BUILD, exist_ok=True)
  with open(os.path.join(BUILD, '.lock'), 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    all_srcs = list(srcs)
    if lib:
      all_srcs = [s for s in repo_sources() if s != 'bant/bant.cc'] + all_srcs
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
      objs = list(ex.map(lambda s: compile_obj(flavour, s), all_srcs))
    cxx, flags = FLAVOURS[flavour]
    key = _sha(name, cxx, ' '.join(flags), ' '.join(link), *objs)
    bindir = os.path.join(BUILD, 'bin')
    os.makedirs(bindir, exist_ok=True)
    out = os.path.join(bindir, '%s-%s' % (name, key[:20]))
    if not os.path.exists(out):
      _place([cxx] + flags + objs + list(link) + [RE2, '-Wl,--start-group'] +
             ABSL + ['-Wl,--end-group', '-lpthread'], out, REPO)
    else:
      os.utime(out)
    _gc()
  return out


def driver():
  return build_binary('driver', 'asan', [os.path.join(VERIF, 'driver/driver.cc')])


def bant(flavour='plain'):
  return build_binary('bant', flavour, ['bant/bant.cc'])


def fuzzer(name):
  return build_binary('fuzz_' + name, 'fuzz',
                      [os.path.join(VERIF, 'fuzz', name + '.cc')],
                      link=['-fsanitize=fuzzer'])


def clang_tidy_cached():
  """scripts/run-clang-tidy-cached.cc, as its first lines say (it is a
  self-contained script)."""
  src = os.path.join(REPO, 'scripts/run-clang-tidy-cached.cc')
  os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
  flags = ['-std=c++17', '-O1', '-g1', '-w'] + SAN
  procs = os.path.join(VERIF, 'driver/nprocs.cc')
  key = _sha(' '.join(flags), _read(src), _read(procs))
  out = os.path.join(BUILD, 'bin', 'ctc-' + key[:20])
  with open(os.path.join(BUILD, '.lock'), 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(out):
      try:
        _place([CXX] + flags + [src, procs, '-lpthread'], out, REPO)
      except BuildError:  # newer features
        _place([CXX, '-std=c++23'] + flags[1:] + [src, procs, '-lpthread'], out, REPO)
  return out


def fake_tidy():
  return build_binary('fake_tidy', 'plain', [os.path.join(VERIF, 'driver/fake_tidy.cc')], lib=False)


def small(name, srcs, flavour='asan', link=()):
  """A harness that needs only headers / few sources of the repo."""
  return build_binary(name, flavour, srcs, link=link, lib=False)


if __name__ == '__main__':
  try:
    for what in sys.argv[1:] or ['driver', 'bant', 'clang_tidy_cached']:
      print(what, globals()[what]())
  except BuildError as e:
    print('BUILD-ERROR', e)
    sys.exit(2)
