"""P13: every method of the task queue is interpreted with the locks it holds as ghost state.  The queue's content and the shutdown
indication are arbitrary whenever the lock is obtained, so each method's paths cover it running among any other threads.
Required: every access to the guarded fields holds one common lock of the same object; no thread sleeps while a task is queued or
shutdown was announced, and it tests again after waking; adding a task is followed by a notification and announcing shutdown by a
notification of all; a removed task is delivered exactly once, an accepted task is added exactly once."""
from common import *
from concmodel import *

QN = PAR + 'SimpleConcurrenceQueue'
def kinds(rec):
    out = {}
    for f in rec['fields']:
        t = f['t']
        b = re.sub(r'^(const |mutable )*', '', t)
        if re.match(r'std::(recursive_|shared_|timed_)?mutex', b): k = 'mutex'
        elif b.startswith('std::condition_variable'): k = 'cond'
        elif re.match(r'std::(%s)<' % '|'.join(CONT), b): k = 'cont'
        elif b == 'bool' or b.startswith('std::atomic<bool>') or b == 'std::atomic_flag' or b == 'std::atomic_bool': k = 'flag'
        elif rng(b) is not None or b.startswith('std::atomic'): k = 'scalar'
        else: k = None
        out[f['q']] = k
    return out

def engine(ctx, rec, K, prev=None):
    eng = ConcEngine(ctx.F)
    eng.exact_loops = True
    eng.deadline = time.process_time() + 200
    # any number of queued tasks: small ones and those around every constant the code compares with
    lits = {int(n['v']) for f in ctx.F.fns.values() if 'blocks' in f and bq(f.get('cls') or f['q']).startswith(QN) for n in f['nodes'] if n and n['k'] == 'IntegerLiteral'}
    eng.sizes = sorted({0, 1, 2, 3} | {v + d for v in lits if 3 <= v <= 2000 for d in (-1, 0, 1)})
    for b in (('Q',), ('Q2',)): eng.shared[b] = K
    for f in rec['fields']:
        if f.get('iv') is not None:
            try: eng.init[f['q']] = int(f['iv'])
            except ValueError: pass
    if prev is not None: eng.shut, eng.waitcv = dict(prev.shut), set(prev.waitcv)
    return eng

def call(eng, f, fixed=None):
    st = State()
    st.mem[STATUS] = C(0)
    for b in eng.shared:
        for fld, k in eng.shared[b].items():
            if k == 'cont': st.mem[Loc(b, (fld,))] = Opq('seq', (Opq('elem', (900,)),))
            elif k in ('flag', 'scalar'): st.mem[Loc(b, (fld,))] = C(eng.init.get(fld, 0))
    args, outp = [], None
    ncb = 0
    names = [p.get('n') for p in f['params']]
    for i, p in enumerate(f['p']):
        t = strip_ref(p)
        if '(lambda at' in t or (t.startswith('std::function<bool') ):
            args.append(Opq('cb', (names[i] or ncb,))); ncb += 1
        elif bq(t) == QN: args.append(Loc(('Q2',), ()))
        elif 'SimpleConcurrenceQueue' in t: args.append(Loc(('Q2',), ()))
        elif rng(t) is not None: args.append(fresh('arg'))
        elif is_ref(p) and not p.startswith('const ') and not p.rstrip().endswith('&&'):
            outp = Loc(('out',), ()); st.mem[outp] = Opq('task', ('old',)); args.append(outp)
        else:
            d = Loc(('data',), ()); st.mem[d] = Opq('task', ('new',)); args.append(d)
    this = Loc(('Q',), ())
    if f.get('ctor'):
        this = Loc(('Qnew',), ())
        for fld, k in eng.shared[('Q',)].items():
            if k == 'cont': st.mem[Loc(this.base, (fld,))] = Opq('seq', ())
    eng.hooks['fixed'] = fixed or {}
    return eng.inline(st, None, f, None if f.get('static') else this, args, None), outp

class Cb:
    """user callbacks of push: the outcome of the condition is arbitrary"""
    def __init__(self, eng):
        old = eng.call
        def call(st, fr, fn, this, args, node):
            v = this
            n = 0
            while isinstance(v, Loc) and n < 6: v = st.mem.get(v); n += 1
            if fn['n'] == 'operator()' and isinstance(v, Opq) and v.tag == 'cb':
                name = v.args[0]
                if 'bool' in fn.get('r', 'void'):
                    s2 = st.copy()
                    st.ghost['cb'] = st.ghost.get('cb', ()) + ((name, 1),)
                    s2.ghost['cb'] = s2.ghost.get('cb', ()) + ((name, 0),)
                    return [(st, C(1)), (s2, ZERO)]
                st.ghost['cb'] = st.ghost.get('cb', ()) + ((name, None),)
                return [(st, ZERO)]
            return old(st, fr, fn, this, args, node)
        eng.call = call

def run(ctx):
    F = ctx.F
    recs = [r for q, r in F.records.items() if bq(q) == QN]
    if not recs: ctx.undec('task queue not found'); return
    rec = recs[0]
    K = kinds(rec)
    if 'cont' not in K.values() or 'mutex' not in K.values(): ctx.undec('task queue fields not recognised'); return
    ms = [f for f in F.fns.values() if 'blocks' in f and bq(f.get('cls') or '') == QN and f.get('access') != 'private' and f.get('access') != 2 and not f.get('dtor')
          and not f['n'].startswith('~') and not (f.get('ctor') and not f['p']) and 'lambda' not in f['n'] and f['n'] != 'operator()']
    dc = [f for f in F.fns.values() if 'blocks' in f and bq(f.get('cls') or '') == QN and f.get('ctor') and not f['p']]
    acc = {m['id']: m.get('access') for m in rec.get('methods', [])}
    ms = [f for f in ms if acc.get(f['id'], 0) == 0]
    # first pass: which condition variables are waited on, what announcing shutdown writes
    e0 = engine(ctx, rec, K)
    Cb(e0)
    ann = [f for f in ms if f['n'] == 'notifyAllPop']
    try:
        for f in dc:
            for s, _ in e0.inline(State(), None, f, Loc(('Qi',), ()), [], None):
                for k, v in s.mem.items():
                    if k.base == ('Qi',) and len(k.path) == 1 and isinstance(v, Poly) and v.const() is not None: e0.init[k.path[0]] = v.const()
        init = dict(e0.init)
        for f in ms:
            ex, _ = call(e0, f)
            if f in ann or not ann:
                for s, _ in ex:
                    if not ann and not s.ghost.get('notedall'): continue
                    if ann and s is None: continue
                    for fld, v in s.ghost.get('wrote', ()):
                        if v != init.get(fld, 0) and K.get(fld) in ('flag', 'scalar'): e0.shut[fld] = v
    except Budget as e: ctx.undec('queue: %s' % e); return
    eng = engine(ctx, rec, K, e0)
    eng.init = init
    Cb(eng)
    al = lambda rule, f, msg: ctx.alarm(rule, f['file'], f['l'], f['q'], msg, key='%s|%s' % (rule, f['n']))
    waiting = False
    try:
        for f in ms:
            del eng.sleeps[:]
            ex, outp = call(eng, f)
            ctx.count('methods'); ctx.count('exit_states', len(ex))
            if not ex and not eng.alarms: al('stuck', f, 'no path of %s returns' % f['n'])
            for s, ret in ex:
                ctx.obl += 1
                g = s.ghost
                took, put = g.get('took', ()), g.get('put', ())
                waiting |= bool(g.get('waits'))
                if held(s): al('lock-leak', f, '%s returns with the lock still held on a path' % f['n'])
                if g.get('needone'): al('no-notification', f, 'a task is added on a path of %s that notifies nobody: a sleeping worker stays asleep' % f['n'])
                if g.get('needall'): al('no-notification', f, '%s announces shutdown without waking all waiting workers' % f['n'])
                if f.get('ctor'): continue
                if g.get('moved_q'): continue
                rb = None
                if f.get('r') == 'bool':
                    try: rb = [t for _, t in eng.split(s.copy(), ret)]
                    except Budget: rb = None
                    rb = rb[0] if rb and len(rb) == 1 else None
                outs = []
                if outp is not None: outs.append(payload(eng, s, outp))
                if isinstance(ret, Loc): outs += [payload(eng, s, k) for k in eng.subtree(s, ret)] + [payload(eng, s, ret)]
                elems = [x for x in outs if isinstance(x, Opq) and x.tag == 'elem']
                if len(took) > 1: al('dropped', f, '%s removes %d tasks on one path' % (f['n'], len(took)))
                for x in took:
                    if x not in elems: al('dropped', f, '%s removes a task from the queue without handing it out' % f['n'])
                    elif rb is False: al('dropped', f, '%s takes a task and tells its caller that it took none' % f['n'])
                for x in elems:
                    if x not in took: al('twice', f, '%s hands out a task that stays in the queue' % f['n'])
                if rb and not elems and outp is not None: al('twice', f, '%s tells its caller that it took a task although it took none' % f['n'])
                cb = g.get('cb', ())
                if any(p for p in f['p'] if 'lambda at' in p):
                    conds = [r for _, r in cb if r is not None]; errs = [1 for _, r in cb if r is None]
                    new = [x for x in put if x == Opq('task', ('new',))]
                    if len(put) > 1: al('twice', f, '%s adds the task more than once' % f['n'])
                    elif len(put) == 1 and not new: al('dropped', f, '%s adds something other than the given task' % f['n'])
                    elif conds and all(conds) and not put: al('dropped', f, 'the condition holds but %s does not add the task' % f['n'])
                    elif conds and not all(conds) and put: al('refused', f, '%s adds the task although the condition is false' % f['n'])
                    elif conds and not all(conds) and not errs and not put: al('refused', f, '%s drops the task silently' % f['n'])
                elif f['n'].startswith(('push', 'emplace')) and len(put) != 1: al('dropped', f, '%s adds %d tasks' % (f['n'], len(put)))
                if g.get('waits') and rb is False and not took:
                    n, shut = seq_state(eng, s, Loc(('Q',), ()))
                    if eng.shut and not shut: al('not-retested', f, '%s gives up although no shutdown was announced: after waking it does not test its condition again' % f['n'])
                    if n: al('not-retested', f, '%s gives up although a task is queued' % f['n'])
            if f in ann:
                ctx.obl += 1
                if not eng.shut: al('no-announcement', f, '%s changes nothing a waiting worker tests: woken workers go back to sleep' % f['n'])
                elif any(not (dict(s.ghost.get('wrote', ())).keys() & eng.shut.keys()) for s, _ in ex): al('no-announcement', f, 'a path of %s does not announce shutdown' % f['n'])
                if any(not s.ghost.get('notedall') for s, _ in ex): al('no-notification', f, '%s does not wake all waiting workers' % f['n'])
    except Budget as e: ctx.undec('queue: %s' % e); return
    for a in eng.alarms.values():
        ctx.alarm(a['rule'], a['file'], a['line'], a['function'], a['msg'], key='%s|%s|%s' % (a['rule'], a['function'].split('::')[-1], a['line']))
    # one common lock for every access
    by = {}
    for fld, locks, w, fr, node in eng.accesses.values():
        if K.get(fld) not in ('cont', 'flag', 'scalar'): continue
        ctx.obl += 1; ctx.count('guarded_accesses')
        ty = next(x['t'] for x in rec['fields'] if x['q'] == fld)
        if not locks:
            if 'atomic' in ty and not w: continue
            if K[fld] == 'scalar' and fld not in eng.shut and not any(x[0] == fld and x[2] for x in eng.accesses.values()): continue
            ctx.alarm('unlocked', fr.fn['file'], node['l'], fr.fn['q'], '%s is %s without holding the lock that guards it' % (fld.split('::')[-1], 'changed' if w else 'read'), key='unlocked|%s|%s' % (fld, fr.fn['n']))
        else: by.setdefault(fld, []).append((locks, fr, node))
    for fld, l in by.items():
        common = frozenset.intersection(*[x[0] for x in l])
        if not common:
            ctx.alarm('unlocked', l[0][1].fn['file'], l[0][2]['l'], l[0][1].fn['q'], '%s is guarded by different locks at different places' % fld.split('::')[-1], key='locks|' + fld)
    if not waiting: ctx.undec('no method waits')
    ctx.sample('methods: %s; shutdown indication: %s; waits on: %s' % (', '.join(f['n'] for f in ms), {k.split('::')[-1]: v for k, v in eng.shut.items()}, sorted(str(x).split('::')[-1] for x in eng.waitcv)))
    ctx.cov['sleep_points'] = eng.obl['sleep']
