"""per-entry-state timing of one core operation: coreprof.py NAME [limit seconds per case]"""
import sys, time, os, signal
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'py'))
from common import *
from corerun import *
from multiprocessing import Pool
name = sys.argv[1]; lim = int(sys.argv[2]) if len(sys.argv) > 2 else 20
ctx = Ctx('P24', 'quick'); F = ctx.F; L = Layout(F)
ops, miss = specs(F)
jobs = [(op, it) for op in ops if op.fn['n'] == name for it in op.spec.items(F, L, op, 'quick')]
def run(k):
    op, it = jobs[k]
    c = Ctx('P24', 'quick') if False else ctx
    class T(Exception): pass
    def h(*a): raise T()
    signal.signal(signal.SIGALRM, h); signal.alarm(lim)
    t = time.time()
    try:
        case = op.spec.build(L, op, it)
        n = execute(ctx, L, op, case, lambda r, s, ret: op.spec.check(case, r, s, ret))
    except T: n = -1
    except Infeasible: n = -2
    signal.alarm(0)
    return (round(time.time() - t, 2), n, len(op.fn['p']), it)
if __name__ == '__main__':
    with Pool(8) as p:
        r = p.map(run, range(len(jobs)), chunksize=1)
    r.sort(key=lambda x: -x[0])
    print(len(r), 'cases', sum(x[0] for x in r), 's;', sum(1 for x in r if x[1] == -1), 'timeouts')
    for x in r[:25]: print(x)
