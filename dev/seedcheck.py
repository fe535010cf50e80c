"""seedcheck.py [ids...] [+PID...]: run the check of each planted bug (and extra checks) on a scratch copy with the patch"""
import sys, os, shutil, subprocess, tempfile, json, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != '+'] or sorted(os.listdir(V + '/seeded'))
ex = [a[1:] for a in sys.argv[1:] if a[0] == '+']
def one(i):
    d = tempfile.mkdtemp(prefix='sc'); out = [i]
    try:
        for x in ('src', 'include', 'c'): shutil.copytree('/repo/' + x, d + '/' + x)
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, V + '/seeded/%s/patch.diff' % i], cwd='/', capture_output=True, text=True)
        if r.returncode: return i + ' APPLY ' + r.stderr[:200]
        for c in [json.load(open(V + '/seeded/%s/meta.json' % i))['property']] + ex:
            r = subprocess.run(['python3', V + '/py/check.py', c], capture_output=True, text=True, env=dict(os.environ, PGBN_REPO=d, PGBN_EVID=d))
            t = (r.stdout + r.stderr).strip().split('\n')
            out.append('   %s: %d %s' % (c, r.returncode, [l for l in t if 'VIOLATION' in l or l.startswith('  ')][:2] or t[-1][:200]))
    finally: shutil.rmtree(d)
    return '\n'.join(x[:400] for x in out)
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as p:
    for r in p.map(one, ids): print(r, flush=True)
