"""mutcheck.py IN.jsonl OUT.jsonl: run the relevant checks on every surviving mutant of mutgen.py; follows IN while it grows (development aid)"""
import sys, os, json, time, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
IN, OUT = sys.argv[1:3]
CORE = 'P02 P01 P05 P03 P04 P18 P40 P24 P23 P19 P41 P42 P07 P25'.split()
BYF = {'src/BigIntegerImpl.cpp': CORE, 'src/Slice.h': CORE, 'src/BigInteger.cpp': 'P17 P25 P07 P19'.split(), 'src/Fraction.h': 'P20 P26 P44 P06'.split(),
       'src/Status.cpp': 'P09 P08 P22'.split(), 'c/src/pgbn.cpp': 'P16 P06 P07 P19'.split(),
       'src/eval.cpp': 'P15 P43 P10 P14'.split(), 'src/infixExpr/ExprParser.cpp': 'P10 P11 P12'.split(), 'src/infixExpr/ExprTree.cpp': 'P10 P15 P11'.split(),
       'src/infixExpr/Token.h': 'P10 P11 P12'.split(), 'src/infixExpr/fwd.h': 'P10 P15 P11'.split(), 'src/streams/StringReadStream.h': 'P10 P11 P12 P41'.split()}
def order(f, i):
    if 'BigIntegerImpl' not in f: return 'P25 P24 P03 P23 P01'.split()
    i += 1
    if i < 300: return 'P42 P24 P04'.split()
    if i < 512: return 'P25 P07 P16 P01'.split()
    if i < 615: return 'P07 P18'.split()
    if i < 743: return 'P42 P19'.split()
    if i < 766: return 'P42 P07'.split()
    if i < 915: return 'P19 P07 P18'.split()
    if i < 944: return 'P24 P04 P02'.split()
    if i < 1146: return 'P04 P06 P40 P01'.split()
    if i < 1274: return 'P42 P24'.split()
    if i < 1330: return 'P42 P07 P18'.split()
    return 'P40 P04 P06 P02'.split()
DEF = 'P10 P12 P15 P13 P14 P09'.split()
done = set()
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d['f'], d['i'], d['b']))
def one(m):
    d = tempfile.mkdtemp(prefix='mc'); res = {}
    try:
        for x in ('src', 'include', 'c'): shutil.copytree('/repo/' + x, d + '/' + x)
        p = d + '/' + m['f']; ls = open(p, newline='').read().split('\n')
        if ls[m['i']] != m['a']: res['stale'] = 1
        ls[m['i']] = m['b']; open(p, 'w', newline='').write('\n'.join(ls))
        for c in (order(m['f'], m['i']) if BYF.get(m['f']) is CORE else BYF.get(m['f'], DEF)):
            t = time.time()
            r = subprocess.run(['timeout', '900', 'python3', '/verif/py/check.py', c], capture_output=True, text=True, env=dict(os.environ, PGBN_REPO=d, PGBN_EVID=d))
            res[c] = [r.returncode, round(time.time() - t), (r.stdout.strip().split('\n') or [''])[-1][:160]]
            if r.returncode == 1: break
    finally: shutil.rmtree(d)
    m['checks'] = res; m['hit'] = [c for c in res if isinstance(res[c], list) and res[c][0] == 1]
    open(OUT, 'a').write(json.dumps(m) + '\n')
idle = 0; pos = 0
with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    while idle < 20:
        f = open(IN); f.seek(pos); new = f.readlines(); pos = f.tell(); f.close()
        for l in new:
            m = json.loads(l)
            if m['res'] == 'survived' and (m['f'], m['i'], m['b']) not in done: done.add((m['f'], m['i'], m['b'])); ex.submit(one, m)
        idle = 0 if new else idle + 1
        time.sleep(10)
