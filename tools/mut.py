#!/usr/bin/env python3
"""mut.py PROPS file 'old' 'new' [file old new]...: try an edit on /repo, run checks, undo"""
import subprocess, sys
props = sys.argv[1].split(',')
a = sys.argv[2:]
try:
    for f, o, n in zip(a[::3], a[1::3], a[2::3]):
        f = '/repo/src/' + f
        s = open(f).read()
        if o not in s: print('NOT FOUND', o); sys.exit(1)
        open(f, 'w').write(s.replace(o, n, 1))
    for p in props:
        r = subprocess.run(['python3', '/verif/sa/run.py', p], capture_output=True, text=True)
        print(p, 'rc', r.returncode, '|', ' / '.join(l for l in r.stdout.splitlines() if not l.startswith('VIOLATION'))[:420])
finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
