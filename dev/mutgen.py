"""mutgen.py OUT.jsonl [fraction]: random first-order mutants of the source; those that build and pass the stable tests are recorded (development aid)"""
import sys, os, re, random, json, subprocess, shutil, signal
from multiprocessing import Process, Queue, Lock
OUT = sys.argv[1]; FRAC = float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
random.seed(int(os.environ.get('SEED', '7')))
FILES = (os.environ.get('FILES') or 'src/BigIntegerImpl.cpp src/BigInteger.cpp src/Slice.h src/Fraction.h src/Status.cpp src/eval.cpp src/infixExpr/ExprParser.cpp src/infixExpr/ExprTree.cpp src/infixExpr/Token.h src/infixExpr/fwd.h src/streams/StringReadStream.h c/src/pgbn.cpp').split()
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
OPS = [(r'(?<![<\-=>])<(?![<=])(?= )', ['<=']), (r'<=(?!>)', ['<']), (r'(?<![\->])>(?![>=])(?= )', ['>=']), (r'(?<!<)>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']), (r'\+\+', ['--']), (r'--', ['++']), (r'(?<!<)<<(?![<=])', ['>>']), (r'(?<!>)>>(?![>=])', ['<<']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r' \| ', [' & ']), (r' & ', [' | ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']),
       (r'(?<![\w.])32(?![\w.])', ['31', '64']), (r'(?<![\w.])64(?![\w.])', ['63']), (r'!(?=[\w(])', ['']), (r'\bPOSITIVE\b', ['NEGATIVE']), (r'\bNEGATIVE\b', ['POSITIVE']), (r'\bZERO\b', ['POSITIVE']), (r'\bbegin\(\)', ['end()']),
       (r'\bfront\(\)', ['back()']), (r'\bother\b', ['*this']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'm_lo\b', ['m_hi']), (r'm_hi\b', ['m_lo']), (r'(?<=\()(\w+), (\w+)(?=\))', ['\\2, \\1']), (r'uint64_t', ['uint32_t', 'int64_t']), (r' \? ', [' || true ? ', ' && false ? ']), (r'\breturn (?=[^;]+;)', ['return {}; return '])]
M = []
for f in FILES:
    inc = False
    for i, l in enumerate(open('/repo/' + f, newline='').read().split('\n')):
        s = l.strip()
        if '/*' in s: inc = True
        if inc:
            if '*/' in s: inc = False
            continue
        if not s or s.startswith(('//', '#', 'PGZXB', 'using', 'namespace', 'template', '*', 'static_assert', 'typedef')): continue
        code = re.sub(r'//.*', '', l)
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                pre = code[:m.start()]
                if pre.count('"') % 2: continue
                for r in reps:
                    r2 = m.expand(r)
                    M.append((f, i, l, l[:m.start()] + r2 + l[m.end():]))
        if re.match(r'[\w*(][^=]*(\(|\+\+|--|=)[^{}]*;\s*$', s) and not re.match(r'(return|break|continue|if|for|while|else|case|const|auto|int|bool|std::|Slice|BigInteger\w* \w|SizeType|Enum|char|static|friend|virtual|explicit|class|struct|void|using|Node \*|Value \w)', s):
            M.append((f, i, l, re.match(r'\s*', l)[0] + ';'))
random.shuffle(M)
M = M[:int(len(M) * FRAC)]
print(len(M), 'mutants', flush=True)
def worker(k, q, lock):
    top = '/tmp/mut/w%d' % k; d = top + '/r'
    shutil.rmtree(top, ignore_errors=True); os.makedirs(top)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('_build', '.git'))
    for s in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + s).read().replace('/opt/vp/build.sh', top + '/build.sh').replace('/repo', d).replace('ninja -C', 'ninja -j2 -C')
        open(top + '/' + s, 'w').write(t)
    def sh(c, to):
        p = subprocess.Popen(c, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try: return p.wait(to)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); return -1
    sh('bash %s/build.sh' % top, 300)
    while True:
        m = q.get()
        if m is None: break
        f, i, a, b = m
        p = d + '/' + f; src = open(p, newline='').read()
        ls = src.split('\n'); ls[i] = b
        open(p, 'w', newline='').write('\n'.join(ls))
        res = 'nobuild'
        if sh('bash %s/build.sh' % top, 120) == 0:
            res = 'killed'
            if sh('bash %s/test.sh %s/o.json' % (top, top), 90) >= 0 and os.path.exists(top + '/o.json'):
                try:
                    if not stable - set(json.load(open(top + '/o.json'))['passed']): res = 'survived'
                except ValueError: pass
        try: os.remove(top + '/o.json')
        except OSError: pass
        open(p, 'w', newline='').write(src)
        with lock: open(OUT, 'a').write(json.dumps(dict(f=f, i=i, a=a, b=b, res=res)) + '\n')
    shutil.rmtree(top)
if __name__ == '__main__':
    q, lock = Queue(), Lock()
    for m in M: q.put(m)
    n = int(os.environ.get('J', '7'))
    for _ in range(n): q.put(None)
    ps = [Process(target=worker, args=(k, q, lock)) for k in range(n)]
    for p in ps: p.start()
    for p in ps: p.join()
