#!/usr/bin/env python3
"""rec.py CNN "technique"  [statement-replacement-file]  : after a check is built."""
import json, os, re, subprocess, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = json.load(open('tools/techniques.json'))
t[sys.argv[1]] = [sys.argv[2], '']
json.dump(dict(sorted(t.items())), open('tools/techniques.json', 'w'), indent=1)
if len(sys.argv) > 3:
  s = open('tools/mkprops.py').read()
  i = s.index("p('%s'" % sys.argv[1])
  l0 = s.index('\n', i) + 1
  l1 = s.index('\n', l0)
  s = s[:l0] + '  %r,' % sys.argv[3] + s[l1:]
  open('tools/mkprops.py', 'w').write(s)
subprocess.check_call(['python3', 'tools/mkprops.py'])
subprocess.check_call(['python3', 'tools/mkmanifest.py'])
subprocess.check_call(['git', 'add', '-A'])
subprocess.check_call(['git', 'commit', '-qm', 'Check ' + sys.argv[1]])
