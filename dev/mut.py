"""mut.py FILE OLD NEW CHECK... : run checks against a scratch copy of the sources with one textual change (development aid)"""
import sys, os, shutil, subprocess, tempfile
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='mut')
try:
    for x in ('src', 'include', 'c'): shutil.copytree('/repo/' + x, d + '/' + x)
    p = d + '/' + f
    s = open(p, newline='').read()
    k = s.count(old)
    if k < 1: print('NOT FOUND'); sys.exit(3)
    n = int(os.environ.get('NTH', '1'))
    i = -1
    for _ in range(n): i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    open(p, 'w', newline='').write(s)
    for c in sys.argv[4:]:
        r = subprocess.run(['python3', '/verif/py/check.py', c], capture_output=True, text=True, env=dict(os.environ, PGBN_REPO=d))
        print(c, 'exit', r.returncode, '\n  '.join((r.stdout + r.stderr[-600:]).strip().split('\n')[-5:]))
finally:
    shutil.rmtree(d)
