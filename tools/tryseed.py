#!/usr/bin/env python3
"""tryseed.py ID [--check] : validates seeded/ID in a scratch copy; runs the check(s) of its property against it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, **k):
  return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def record(sid, results):
  import fcntl
  with open(V + '/tools/caught.json', 'a+') as f:
    fcntl.flock(f, fcntl.LOCK_EX)
    f.seek(0); c = json.loads(f.read() or '{}')
    c[sid] = sorted((set(c.get(sid, [])) | {k for k, v in results.items() if v}) - {k for k, v in results.items() if not v})
    f.truncate(0); f.write(json.dumps(c, indent=0, sort_keys=True) + '\n')
def main():
  sid = sys.argv[1]
  d = os.path.join(V, 'seeded', sid)
  meta = json.load(open(d + '/meta.json'))
  top = tempfile.mkdtemp(prefix='seed-')
  try:
    r = top + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    def demo():
      lay = top + '/lay'
      shutil.rmtree(lay, ignore_errors=True)
      shutil.copytree(d, lay, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
      return sh(['bash', lay + '/demo.sh'], r)
    if '--check-only' not in sys.argv:
      p = demo()
      if p.returncode: print('demo fails on the unchanged tree', p.returncode, p.stdout[-2000:]); return 1
    p = sh(['git', 'apply', d + '/patch.diff'], r)
    if p.returncode: print('does not apply', p.stdout); return 1
    if '--check-only' not in sys.argv:
      p = demo()
      print('demo with patch:', p.returncode, p.stdout.strip()[-300:])
      if p.returncode in (0, 9): return 1
    # only original lines
    env = dict(os.environ, VERIF_REPO=r)
    if '--check-only' not in sys.argv:
      p = sh(['python3', 'tools/repotests.py'], V, env=env)
      bad = [l for l in p.stdout.splitlines() if 'ok' not in l]
      if bad: print('REPO TESTS:', bad[:5])
    seeds = [a[7:] for a in sys.argv if a.startswith('--seed=')] or ['1']
    props = [meta['property']] + [a for a in sys.argv[2:] if a.startswith('C')]
    results = {}
    for pr in props:
     for seed in seeds:
      p = sh(['./run.py', pr, '--quick'], V, env=dict(env, VERIF_SEED=seed))
      results[pr] = results.get(pr, True) and p.returncode == 1 and 'VIOLATION property=' in p.stdout
      print(sid, pr, 'seed', seed, 'exit', p.returncode, 'CAUGHT' if p.returncode == 1 and 'VIOLATION property=' in p.stdout else 'MISSED', p.stdout.strip()[-700:] if p.returncode != 1 else p.stdout.splitlines()[:1] if p.stdout.startswith('C') else p.stdout[-600:])
    record(sid, results)
    base = sh(['git', 'log', '--reverse', '--format=%H'], '/repo').stdout.split()[0]
    old = set(sh('git ls-tree -r --name-only %s' % base, '/repo', shell=True).stdout.split())
    for l in open(d + '/patch.diff'):
      if l.startswith('--- a/'): f = l[6:].strip(); src = sh(['git', 'show', base + ':' + f], '/repo').stdout.splitlines()
      elif l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n').strip() and l[1:].rstrip('\n') not in src: print('WARNING: not an original line:', l.rstrip())
  finally:
    shutil.rmtree(top)
main()
