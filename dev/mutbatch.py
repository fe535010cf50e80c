"""mutbatch.py LISTFILE [ids...]: each entry of the list (python literal: [(id,file,old,new,nth,[checks])]) is applied to a scratch copy and its checks run (development aid)"""
import sys, os, shutil, subprocess, tempfile, ast
from concurrent.futures import ThreadPoolExecutor
L = ast.literal_eval(open(sys.argv[1]).read())
sel = sys.argv[2:]
def one(m):
    i, f, old, new, nth, checks = m
    d = tempfile.mkdtemp(prefix='mut')
    out = []
    try:
        for x in ('src', 'include', 'c'): shutil.copytree('/repo/' + x, d + '/' + x)
        p = d + '/' + f
        s = open(p, newline='').read()
        if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        k = -1
        for _ in range(nth):
            k = s.find(old, k + 1)
            if k < 0: return i + ' NOT FOUND'
        s = s[:k] + new + s[k + len(old):]
        open(p, 'w', newline='').write(s)
        for c in checks:
            r = subprocess.run(['python3', '/verif/py/check.py', c], capture_output=True, text=True, env=dict(os.environ, PGBN_REPO=d, PGBN_EVID=d))
            txt = r.stdout + r.stderr
            v = [l for l in txt.split('\n') if 'VIOLATION' in l or l.startswith('  ') ][:2]
            last = txt.strip().split('\n')[-1] if txt.strip() else ''
            out.append('%s:%d %s' % (c, r.returncode, last[:110]) + ''.join('\n      ' + x[:200] for x in v[:2]))
    finally: shutil.rmtree(d)
    return i + '\n   ' + '\n   '.join(out)
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for r in ex.map(one, [m for m in L if not sel or m[0] in sel]): print(r, flush=True)
