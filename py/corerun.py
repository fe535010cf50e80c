"""Runs the core analyses of one property: every operation whose specification carries its tag, every entry shape."""
from core import *

def light(op):
    """the long-division kernel is analysed by itself under P24 and P40"""
    return op.fn['n'] != 'knuthDivImpl'

def run_core(ctx, want=None, only=None, tags=None):
    F = ctx.F
    try: L = Layout(F)
    except Budget as e:
        ctx.undec(str(e)); return
    ops, miss = specs(F)
    for m in miss: ctx.undec('function %s not found by name and signature' % m)
    jobs = []
    for k, op in enumerate(ops):
        if only and op.fn['n'] not in only: continue
        if want and not want(op): continue
        for it in op.spec.items(F, L, op, ctx.tier): jobs.append((k, it))
    def one(c, ch):
        n = 0
        for k, it in ch:
            op = ops[k]
            try:
                case = op.spec.build(L, op, it)
            except Infeasible: continue
            n += execute(c, L, op, case, lambda run, s, ret: op.spec.check(case, run, s, ret))
        return n
    heavy = [j for j in jobs if ops[j[0]].fn['n'] == 'knuthDivImpl']
    jobs = [j for j in jobs if j not in heavy]
    chunks = [[j] for j in heavy] + [jobs[i:i + 6] for i in range(0, len(jobs), 6)]
    jobs = jobs + heavy
    n = sum(pmap(ctx, one, chunks))
    ctx.count('entry_states', len(jobs))
    ctx.cov['operations'] = len({k for k, _ in jobs})
    return n
