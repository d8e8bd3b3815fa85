"""Runs the generated-input search of one property.

A check module has PROPERTY, RULE, SUBS (list of Sub), optional prepare().
Every random choice is Hypothesis', seeded from VERIF_SEED; the number of
cases per shard is fixed, so a run is a function of code and seed.
"""
import ast
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis.errors import Flaky, FlakyFailure, Unsatisfiable

from vlib import build, proto

VERIF = build.VERIF
SHRINK_SECONDS = 45
CASE_SECONDS = 240


class Violation(Exception):
  pass


class _Stop(BaseException):
  pass


class _TooSlow(BaseException):
  pass


class Sub:
  """One generated check of a property.

  name      label, also names the replay
  strategy  Hypothesis strategy producing cases that are Python literals
  run       run(ctx, case): raises Violation / proto.Crash if the property is
            broken; calls ctx.hit() when the case is non-trivial
  quick / thorough   number of cases in total, split over shards
  """

  def __init__(self, name, strategy, run, quick, thorough=None, shards=8,
               exhaustive=None):
    self.name = name
    self.strategy = strategy
    self.run = run
    self.quick = quick
    self.thorough = thorough if thorough is not None else quick * 20
    self.shards = shards
    self.exhaustive = exhaustive  # optional: iterable of all cases


class Ctx:
  def __init__(self, prop, env, sub=None):
    self.prop = prop
    self.env = env
    self.labels = {}
    self.nontrivial = False
    self._driver = None
    self._tmp = None
    self.known = load_known(prop)
    self.known_hits = {}

  @property
  def driver(self):
    if self._driver is None:
      self._driver = proto.Driver(self.env['driver'])
    return self._driver

  def call(self, op, *a):
    return self.driver.call(op, *a)

  def hit(self, *labels):
    """This case is non-trivial; labels classify it."""
    self.nontrivial = True
    for l in labels:
      self.labels[l] = self.labels.get(l, 0) + 1

  def label(self, *labels):
    for l in labels:
      self.labels[l] = self.labels.get(l, 0) + 1

  def fail(self, msg, key=None):
    """A discrepancy. 'key' identifies a specific known finding."""
    if key is not None and key in self.known:
      self.known_hits[key] = self.known_hits.get(key, 0) + 1
      return
    raise Violation(msg)

  def eq(self, got, want, what):
    if got != want:
      raise Violation('%s:\n  got      %r\n  expected %r' % (what, got, want))

  def scratch(self):
    """Empty scratch directory of this case."""
    if self._tmp is None:
      base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
      self._tmp = tempfile.mkdtemp(prefix='verif-', dir=base)
      self._n = 0
    self._n += 1
    # a fresh directory per case; the previous one is removed
    prev = os.path.join(self._tmp, 'w%d' % (self._n - 1))
    if os.path.isdir(prev):
      for d, dirs, _ in os.walk(prev):
        for x in dirs:
          p = os.path.join(d, x)
          if not os.path.islink(p):
            os.chmod(p, 0o755)
      shutil.rmtree(prev)
    cur = os.path.join(self._tmp, 'w%d' % self._n)
    os.mkdir(cur)
    return cur

  def close(self):
    if self._driver:
      self._driver.close()
    if self._tmp:
      shutil.rmtree(self._tmp, ignore_errors=True)


def load_known(prop):
  path = os.path.join(VERIF, 'known_findings.jsonl')
  out = {}
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if not line or not line.startswith('{'):
        continue
      e = json.loads(line)
      if e.get('property') == prop and e.get('status') == 'known':
        out[e['key']] = e
  return out


def _key(case):
  return hashlib.blake2b(repr(case).encode('utf-8', 'surrogatepass'),
                         digest_size=8).digest()


def _shard(args):
  (modname, subname, shard, n, sd, env, stop) = args
  mod = importlib.import_module(modname)
  sub = next(s for s in mod.SUBS if s.name == subname)
  ctx = Ctx(mod.PROPERTY, env)
  st = {'evals': 0, 'keys': set(), 'samples': [], 'fail': None, 'first': None,
        'error': None}

  def alarm(*_):
    # After a failure there is one already; this is about something bigger or smaller.
    raise _Stop() if st['first'] is not None else _TooSlow('a case takes more than %ds' % CASE_SECONDS)

  signal.signal(signal.SIGALRM, alarm)

  def one(case):
    if stop.is_set() and st['first'] is None:
      raise _Stop()
    if st['first'] is not None and time.monotonic() - st['first'] > SHRINK_SECONDS:
      raise _Stop()
    st['evals'] += 1
    ctx.nontrivial = False
    signal.alarm(CASE_SECONDS if st['first'] is None else SHRINK_SECONDS)
    try:
      sub.run(ctx, case)
    except (Violation, proto.Crash) as e:
      msg = '%s: %s' % (type(e).__name__, e)
      if st['first'] is None:
        st['first'] = time.monotonic()
        stop.set()
      size = len(repr(case))
      if st['fail'] is None or size <= len(repr(st['fail'][0])):
        st['fail'] = (case, msg)
      raise
    finally:
      signal.alarm(0)
    if ctx.nontrivial:
      k = _key(case)
      if k not in st['keys']:
        st['keys'].add(k)
        if len(st['samples']) < 2 or (len(st['samples']) < 4 and
                                      len(st['keys']) in (50, 200)):
          st['samples'].append(case)

  try:
    if sub.exhaustive is not None and shard == 'x':
      for case in sub.exhaustive():
        one(case)
    else:
      test = given(sub.strategy)(one)
      test = seed(sd)(test)
      test = settings(max_examples=n, database=None, deadline=None,
                      report_multiple_bugs=False, print_blob=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck))(test)
      random.seed(sd)
      test()
  except _Stop:
    pass
  except (Violation, proto.Crash, Flaky, FlakyFailure):
    pass
  except BaseException as e:  # an error of the check itself
    if st['fail'] is None:
      st['error'] = traceback.format_exc()
  finally:
    ctx.close()
  return {'sub': subname, 'evals': st['evals'], 'keys': st['keys'],
          'samples': [repr(s)[:1500] for s in st['samples']],
          'labels': ctx.labels, 'fail': st['fail'], 'error': st['error'],
          'known': ctx.known_hits}


def _replay_once(args):
  modname, subname, case, env = args
  mod = importlib.import_module(modname)
  sub = next(s for s in mod.SUBS if s.name == subname)
  ctx = Ctx(mod.PROPERTY, env)
  try:
    sub.run(ctx, case)
    return None
  except (Violation, proto.Crash) as e:
    return '%s: %s' % (type(e).__name__, e)
  finally:
    ctx.close()


def _init_shared(ev):
  global _STOP
  _STOP = ev


def main(argv):
  t0 = time.monotonic()
  pid = argv[0]
  tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
  if '--quick' in argv:
    tier = 'quick'
  vseed = int(os.environ.get('VERIF_SEED', '1') or '1')
  if '--seed' in argv:
    vseed = int(argv[argv.index('--seed') + 1])
  only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
  modname = 'checks.' + pid.lower()
  mod = importlib.import_module(modname)
  try:
    env = mod.prepare()
  except build.BuildError as e:
    print('BUILD-ERROR: the working tree does not build:\n%s' % e)
    return 2

  if '--replay' in argv:
    path = argv[argv.index('--replay') + 1]
    rep = ast.literal_eval(open(path).read())
    msg = _replay_once((modname, rep['sub'], rep['case'], env))
    print(msg or 'replay: property holds')
    if msg:
      print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if msg else 0

  mp = multiprocessing.get_context('fork')
  mgr = mp.Manager()
  stop = mgr.Event()
  jobs = []
  subs = [s for s in mod.SUBS if only is None or s.name == only]
  for si, s in enumerate(subs):
    total = s.thorough if tier == 'thorough' else s.quick
    shards = max(1, min(s.shards, total))
    if s.exhaustive is not None:
      jobs.append((modname, s.name, 'x', 0, 0, env, stop))
    for i in range(shards if total else 0):
      sd = int.from_bytes(hashlib.blake2b(
          ('%s/%s/%d/%d' % (pid, s.name, vseed, i)).encode(),
          digest_size=6).digest(), 'little')
      jobs.append((modname, s.name, i, max(1, total // shards), sd, env, stop))
  # interleave subs so that all get started early
  jobs.sort(key=lambda j: (str(j[2]),))
  results = []
  with mp.Pool(min(len(jobs), os.cpu_count() or 4), maxtasksperchild=4) as pool:
    for r in pool.imap_unordered(_shard, jobs, chunksize=1):
      results.append(r)

  errors = [r['error'] for r in results if r['error']]
  known_listed = load_known(pid)
  violations = []
  unrepro = []
  fails = [r for r in results if r['fail']]
  fails.sort(key=lambda r: len(repr(r['fail'][0])))
  for r in fails[:4]:
    case, msg = r['fail']
    outs = []
    for _ in range(3):
      with mp.Pool(1) as pool:
        outs.append(pool.map(_replay_once, [(modname, r['sub'], case, env)])[0])
    if any(outs):
      violations.append((r['sub'], case, next(o for o in outs if o)))
      break
    unrepro.append((r['sub'], repr(case)[:2000], msg))

  evals = sum(r['evals'] for r in results)
  keys = set()
  labels = {}
  per_sub = {}
  samples = []
  for r in results:
    keys |= {(r['sub'], k) for k in r['keys']}
    d = per_sub.setdefault(r['sub'], {'evaluations': 0, 'labels': {}, 'k': set()})
    d['evaluations'] += r['evals']
    d['k'] |= r['keys']
    for k, v in r['labels'].items():
      d['labels'][k] = d['labels'].get(k, 0) + v
  for name, d in per_sub.items():
    d['distinct_nontrivial'] = len(d.pop('k'))
    d['labels'] = dict(sorted(d['labels'].items()))
    got = 0
    for r in results:
      if r['sub'] == name:
        for s in r['samples']:
          if got < 3:
            samples.append({'sub': name, 'case': s})
            got += 1
  ev = {
      'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
      'seed': vseed, 'level': 'exploration',
      'coverage': {
          'evaluations': evals, 'distinct_nontrivial': len(keys),
          'rule': mod.RULE, 'samples': samples, 'per_sub': per_sub,
          'unreproduced': len(unrepro),
      },
      'assumptions': getattr(mod, 'ASSUMPTIONS', []),
      'wall_s': round(time.monotonic() - t0, 1),
      'violations': len(violations),
  }
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
    f.write('\n')

  print('%s %s: %d cases, %d distinct non-trivial, %.0fs' %
        (pid, tier, evals, len(keys), time.monotonic() - t0))
  for name, d in per_sub.items():
    print('  %-16s %7d cases %7d non-trivial %s' %
          (name, d['evaluations'], d['distinct_nontrivial'],
           json.dumps(d['labels'])[:400]))
  for u in unrepro:
    print('  not reproduced, not reported:', u)
  if errors and not violations:
    print('CHECK-ERROR:', errors[0][-3000:])
    return 2
  for key, e in known_listed.items():
    still = True
    if 'case' in e:
      m = None
      saved = dict(known_listed)
      try:
        m = _replay_known(modname, e, env)
      finally:
        known_listed = saved
      still = m is not None
    if still:
      print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    else:
      print('note: listed finding no longer occurs: %s' % key)
  if violations:
    sub, case, msg = violations[0]
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-%s.txt' % (pid, sub))
    with open(path, 'w') as f:
      f.write(repr({'property': pid, 'sub': sub, 'case': case, 'message': msg}))
      f.write('\n')
    print(msg)
    print('case: %s' % repr(case)[:3000])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
  return 0


def _replay_known(modname, e, env):
  mod = importlib.import_module(modname)
  sub = next(s for s in mod.SUBS if s.name == e['sub'])
  ctx = Ctx(mod.PROPERTY, env)
  ctx.known = {}
  try:
    sub.run(ctx, ast.literal_eval(e['case']))
    return None
  except (Violation, proto.Crash) as x:
    return str(x)
  finally:
    ctx.close()
