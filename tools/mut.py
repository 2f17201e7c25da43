#!/usr/bin/env python3
"""mut.py PID[,PID] file 'old' 'new' [nth]: run checks against a mutated scratch copy"""
import sys, os, shutil, subprocess, tempfile
pids, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
try:
    shutil.copytree('/repo/src', d + '/src'); os.makedirs(d + '/_build')
    shutil.copy('/repo/_build/config.h', d + '/_build/')
    p = d + '/src/' + f; s = open(p).read()
    parts = s.split(old)
    if len(parts) < nth + 2: print('PATTERN NOT FOUND'); sys.exit(2)
    s = old.join(parts[:nth+1]) + new + old.join(parts[nth+1:])
    open(p, 'w').write(s)
    for pid in pids.split(','):
        a = ['python3', '/verif/bin/check.py', pid.split(':')[0]]
        if ':' in pid: a += ['--unit', pid.split(':')[1]]
        r = subprocess.run(a, env=dict(os.environ, VP_REPO=d), stdout=subprocess.PIPE, text=True)
        print(r.stdout, 'rc=%d' % r.returncode)
finally:
    shutil.rmtree(d)
