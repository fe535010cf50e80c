"""mkseed.py SEEDFILE [ids...]: every planted bug of the list (python literal: dicts id, property, file/old/new or edits, demo (C++ or C source), needs, breaks) is applied to a
scratch copy, built, tested, demonstrated on both trees, and written to /verif/seeded/<id> (development aid)"""
import sys, os, shutil, subprocess, tempfile, json
L = eval(open(sys.argv[1]).read())
sel = sys.argv[2:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '38c8d95'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
g++ -std=c++17 -O1 -DPGBN_DEBUG -DPGZXB_DEBUG -I"$PWD" -I"$PWD/include" %(inc)s -o "$d/demo" "$here/demo.cpp" %(libs)s -lpthread 2>"$d/log" || { tail -5 "$d/log"; rm -r "$d"; exit 2; }
timeout 120 "$d/demo"; rc=$?
rm -r "$d"
exit $rc
'''
def sh(cmd, cwd, to=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=to, errors='replace')
def build(d):
    for s in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + s).read().replace('/opt/vp/build.sh', d + '/../build.sh').replace('/repo', d)
        open(d + '/../' + s, 'w').write(t)
for m in L:
    if sel and m['id'] not in sel: continue
    top = tempfile.mkdtemp(prefix='seed'); d = top + '/r'
    try:
        shutil.copytree('/repo', d, symlinks=True)
        shutil.rmtree(d + '/_build')
        build(d)
        ok = True
        for f, old, new in m.get('edits') or [(m['file'], m['old'], m['new'])]:
            p = d + '/' + f
            s = open(p, newline='').read()
            if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            n = m.get('nth', 1); k = -1
            for _ in range(n):
                k = s.find(old, k + 1)
                if k < 0: break
            if k < 0: print(m['id'], 'OLD not found', f); ok = False; break
            open(p, 'w', newline='').write(s[:k] + new + s[k + len(old):])
        if not ok: continue
        # removed lines must be lines of the original repository
        diff = subprocess.run(['git', 'diff', '--no-color'], cwd=d, capture_output=True).stdout
        blame_ok = False
        for f in {e[0] for e in (m.get('edits') or [(m['file'], 0, 0)])}:
            base = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f], cwd=d, capture_output=True).stdout.decode('utf8', 'replace').split('\n')
            u0 = subprocess.run(['git', 'diff', '-U0', '--', f], cwd=d, capture_output=True).stdout.decode('utf8', 'replace')
            import re
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', u0, re.M):
                a, c = int(h[1]), int(h[2] or 1)
                for ln in range(a, a + c):
                    if BASE[:7] in base[ln - 1].split()[0]: blame_ok = True
        if not blame_ok: print(m['id'], 'WARNING: no original line changed')
        out = V + '/seeded/' + m['id']
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.cpp', 'w').write(m['demo'])
        inc = '-I"$PWD/src"' + (' -I"$PWD/c/include"' if m.get('c') else '')
        libs = ('_build/c/libPGBigNumberBindingC.a ' if m.get('c') else '') + '_build/libPGBigNumber.a'
        open(out + '/demo.sh', 'w').write(m.get('sh') or DEMO % {'inc': inc, 'libs': libs})
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': m['property'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/test.sh %s/out.json' % (top, top), d)
        if not os.path.exists(top + '/out.json'): print(m['id'], 'no test result', r.stderr[-300:]); continue
        o = json.load(open(top + '/out.json'))
        lost = stable - set(o['passed'])
        dm = sh('bash %s/demo.sh' % out, d)
        d0 = sh('bash %s/demo.sh' % out, '/repo')
        good = not lost and d0.returncode == 0 and dm.returncode not in (0, 2) and blame_ok
        print(m['id'], 'OK' if good else 'BAD', 'lost=%s' % sorted(lost)[:4], 'demo unchanged=%d patched=%d' % (d0.returncode, dm.returncode), (d0.stdout[-200:] + d0.stderr[-200:]) if d0.returncode else '', dm.stdout[-150:].replace('\n', ' '), flush=True)
        if not good: shutil.move(out, top + '/bad') if os.environ.get('KEEP') is None else None
        chk = os.environ.get('CHECK')
        if good and chk:
            for c in [m['property']]:
                r = subprocess.run(['python3', V + '/py/check.py', c], capture_output=True, text=True, env=dict(os.environ, PGBN_REPO=d, PGBN_EVID=top))
                print('   ', c, r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l][:1], flush=True)
    finally: shutil.rmtree(top)
