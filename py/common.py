"""Shared driver code of the checks: context, alarms, evidence."""
import os, sys, json, time
import facts
from poly import *
from state import *
from eng import *
import valmodel, terms
from valmodel import NS, IMPL, BI, STATUS, CODES, bq
from facts import AnalysisBroken, VERIF, REPO

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.F = facts.load()
        self.alarms = []          # dicts: rule, file, line, function, msg
        self.cov = {}
        self.undecided = []
        self.samples = []
        self.assumptions = []
        self.obl = 0
        self.fired = 0
        load_codes(self.F)
    def alarm(self, rule, file, line, function, msg, key=None, **kw):
        a = dict(rule=rule, file=file, line=line, function=function, msg=msg, key=key or '%s|%s|%s' % (rule, function, msg), **kw)
        if a['key'] not in [x['key'] for x in self.alarms]:
            self.alarms.append(a)
    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 25 and s not in self.samples:
            self.samples.append(s)
    def sub(self):
        c = object.__new__(Ctx)
        c.pid, c.tier, c.F = self.pid, self.tier, self.F
        c.alarms, c.cov, c.undecided, c.samples, c.assumptions, c.obl, c.fired = [], {}, [], [], [], 0, 0
        return c
    def undec(self, what):
        self.undecided.append(what)

def load_codes(F):
    for v in F.vars.values():
        if '::ErrCode::' not in v['q'] or v.get('init') is None: continue
        n = v['init']
        while True:
            nd = v['nodes'][n]
            if nd.get('cv') is not None:
                CODES[v['q'].split('::')[-1]] = int(nd['cv']); break
            if nd['k'] == 'IntegerLiteral':
                CODES[v['q'].split('::')[-1]] = int(nd['v']); break
            if not nd.get('c'): break
            n = nd['c'][0]
    if 'SUCCESS' not in CODES:
        raise AnalysisBroken('error codes not found')

def fn_by(F, q, pred=None):
    r = [f for f in F.byq.get(q, []) if 'blocks' in f and (pred is None or pred(f))]
    return r

def field(F, rec, *types):
    """qualified name of the (only) field of record rec whose type mentions one of types"""
    r = F.records.get(rec)
    if not r: return None
    for f in r['fields']:
        if any(t in f['t'] for t in types):
            return f['q']
    return None

def shortline(a):
    return '%s:%s' % (os.path.relpath(a['file'], REPO) if a['file'].startswith('/') else a['file'], a['line'])

def run_cases(ctx, eng, fn, st, this, args, ins, cases, comps_fn, rule, tag='', known=None):
    """interpret fn from abstract state st; on every exit state and for every expected case (conditions, outcome) that is
    compatible with it compare the observed components with the expected ones"""
    name = fn['q']
    st.ghost['in'] = tuple(ins)
    st.ghost['exp'] = tuple((tuple(conds), tuple(sorted(o.items()))) for conds, o in cases)
    try:
        exits = eng.inline(st, None, fn, this, args, None)
    except Budget as e:
        ctx.undec('%s%s: %s' % (name, tag, e)); return 0
    ctx.count('exit_states', len(exits))
    for s, ret in exits:
        for conds, out in s.ghost['exp']:
            s2 = s.copy()
            s2.ghost['#o'] = (out, ret)
            try:
                for op, p in conds: s2.assume(op, p)
            except Infeasible:
                continue
            out, r2 = s2.ghost['#o']
            comps = comps_fn(s2, r2, dict(out), s2.ghost['in'])
            compare(ctx, fn, s2, comps, rule, tag, known)
    for a in eng.alarms.values():
        ctx.alarm(a['rule'], a['file'], a['line'], name, a['msg'])
    return len(exits)

def compare(ctx, fn, s2, comps, rule, tag='', known=None):
    name = fn['q'] + sig(fn)
    for what, got, exp in comps:
        ctx.obl += 1
        if got is None:
            ctx.undec('%s%s: %s not tracked' % (name, tag, what)); continue
        d = terms.differ(s2, got, exp, known=known)
        if d == 'unknown': ctx.undec('%s%s: %s = %s' % (name, tag, what, got))
        elif d: ctx.alarm(rule, fn['file'], fn['l'], name, '%s is %s, expected %s%s; e.g. %s gives %s instead of %s' % (
            what, got, exp, tag, d['witness'], d['got'], d['expected']), key='%s|%s|%s' % (rule, name, what))
    ctx.sample('%s%s: %s' % (name, tag, ', '.join('%s = %s' % (w, g) for w, g, _ in comps)))

def sig(fn):
    return '(' + ', '.join(strip_ref(p).replace(NS, '').replace('const ', '') for p in fn.get('p', [])) + ')'

_job = {}
STOP = time.time() + float(os.environ.get('PGBN_SECONDS') or ('480' if '--thorough' not in sys.argv else '7200'))   # no further item is begun after that
def _run_job(i):
    ctx, f, items = _job['c'], _job['f'], _job['items']
    sub = ctx.sub()
    if time.time() > STOP:
        sub.undec('time limit of the run: item %s' % str(items[i])[:60])
        return 0, sub.alarms, sub.undecided, sub.samples, sub.obl, sub.cov, sub.assumptions
    r = f(sub, items[i])
    return r, sub.alarms, sub.undecided, sub.samples, sub.obl, sub.cov, sub.assumptions

def late(sub, what):
    """the run's time is over: the item is left undecided"""
    if time.time() <= STOP: return False
    sub.undec('time limit of the run: %s' % str(what)[:60])
    return True

def pmap(ctx, f, items, procs=8):
    """f(ctx, item) for every item in forked workers; findings are merged in order"""
    import multiprocessing as mp
    _job.update(c=ctx, f=f, items=items)
    with mp.get_context('fork').Pool(min(procs, max(1, len(items)))) as pool:
        res = pool.map(_run_job, range(len(items)), 1)
    out = []
    for r, al, un, sa, ob, cov, asm in res:
        for a in al:
            if a['key'] not in [x['key'] for x in ctx.alarms]: ctx.alarms.append(a)
        ctx.undecided += un
        for s in sa: ctx.sample(s)
        ctx.obl += ob
        for k, v in cov.items():
            if isinstance(v, (int, float)): ctx.cov[k] = ctx.cov.get(k, 0) + v
            elif isinstance(v, list): ctx.cov[k] = ctx.cov.get(k, []) + v
        ctx.assumptions += asm
        out.append(r)
    return out
