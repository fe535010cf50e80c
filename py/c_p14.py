"""P14: the pool's constructor, worker function, submission and destructor are interpreted with threads, atomics, futures and the
queue (whose behaviour P13 decides) as ghost state; what other threads do to the queue and the running flag is arbitrary.
Required: at least one worker for every requested number, each started once while the pool runs; a worker executes every task it
takes exactly once and leaves only after it saw shutdown requested and then the queue empty; the destructor requests and announces
shutdown before joining every started worker exactly once; a submitted task is queued once, in a form that runs it once and
fulfils the returned future."""
from common import *
from concmodel import *

QN = PAR + 'SimpleConcurrenceQueue'
PN = PAR + 'ThreadPool'
TASK = Opq('qtask', ())

def running_fields(rec): return [f['q'] for f in rec['fields'] if 'atomic' in f['t'] or f['t'] == 'bool']

class PoolEngine(ConcEngine):
    def __init__(self, F, rec):
        super().__init__(F)
        self.exact_loops = True
        self.deadline = time.process_time() + 200
        self.runf = running_fields(rec)
        self.atoms = {f['q']: 'atomic' in f['t'] for f in rec['fields']}
        self.mode = 'seq'
        self.threads = []
        T = self.table
        def need(name, h): T[QN + '::' + name] = h
        need('pop', q_pop(True)); need('tryPop', q_pop(False)); need('empty', q_isempty); need('push', q_push); need('notifyAllPop', q_announce)
        T[QN + '::SimpleConcurrenceQueue'] = lambda eng, st, fr, fn, this, args, node: [(st, this)]
        T['std::function::operator()'] = chain(run_task, T.get('std::function::operator()'))
        T['std::this_thread::yield'] = T['std::this_thread::sleep_for'] = lambda eng, st, fr, fn, this, args, node: [(st, ZERO)]
        self.hooks['atomic_read'] = atomic_read
        self.hooks['thread'] = started
        self.hooks['join'] = joined
    def intr_prefix(self, q, fn):
        h = super().intr_prefix(q, fn)
        if h is None and bq(fn.get('cls') or '') == QN and not fn['n'].startswith('~'): raise Budget('queue operation %s' % fn['n'])
        return h
    def read(self, st, loc, t, fr=None, node=None):
        if self.mode == 'worker' and isinstance(loc, Loc) and loc.base == ('Pool',) and len(loc.path) == 1 and loc.path[0] in self.runf and not self.atoms[loc.path[0]]:
            self.alarm('unsynchronised', fr, node, 'a worker reads %s, which another thread writes, without synchronisation' % loc.path[0].split('::')[-1])
        return super().read(st, loc, t, fr, node)

def atomic_read(eng, st, fr, this, node):
    if eng.mode != 'worker' or this.base != ('Pool',): return None
    f = this.path[0] if this.path else None
    if f not in eng.runf: return None
    g = st.ghost
    if g.get('stop'): return [(st, ZERO)]
    s2 = st.copy()
    s2.ghost['stop'] = 1
    return [(st, C(1)), (s2, ZERO)]
def started(eng, st, fr, k, args, node):
    run = [st.mem.get(Loc(('Pool',), (f,))) for f in eng.runf]
    if not all(isinstance(v, Poly) and v == C(1) for v in run) and eng.runf:
        if all(isinstance(v, Poly) and v.const() is not None for v in run):
            eng.alarm('started-stopped', fr, node, 'a worker is started before the pool is marked as running: it can leave at once')
    vs = []
    for a in args:
        v = payload(eng, st, a)
        while v is None and isinstance(a, Loc) and isinstance(st.mem.get(a), Loc): a = st.mem[a]
        vs.append(v if v is not None else a)
    eng.threads.append((tuple(vs), fr, node))
def joined(eng, st, fr, k, node):
    if not st.ghost.get('announced'): eng.alarm('join-first', fr, node, 'a worker is joined before shutdown was announced to sleeping workers: it may sleep forever')
    for f in eng.runf:
        v = st.mem.get(Loc(('Pool',), (f,)))
        if isinstance(v, Poly) and v == C(1) and eng.needs_stop: eng.alarm('join-first', fr, node, 'a worker is joined while the pool is still marked as running: it never leaves')

def pend(eng, st, fr, node):
    if st.ghost.get('pend'): eng.alarm('task-dropped', fr, node, 'a worker takes the next task or leaves without having executed the task it took before')
def q_pop(block):
    def h(eng, st, fr, fn, this, args, node):
        if eng.mode != 'worker': raise Budget('pop outside a worker')
        if not isinstance(args[0], Loc): raise Budget('pop target')
        pend(eng, st, fr, node)
        st.ghost.pop('pend', None); st.ghost.pop('empty', None)
        s2 = st.copy()
        st.mem[args[0]] = TASK; st.ghost['pend'] = 1
        if block: s2.ghost['stop'] = 1; s2.ghost['empty'] = 1; s2.ghost['popfalse'] = 1
        elif s2.ghost.get('stop'): s2.ghost['empty'] = 1
        return [(st, C(1)), (s2, ZERO)]
    return h
def q_isempty(eng, st, fr, fn, this, args, node):
    if eng.mode != 'worker': return [(st, fresh('empty', 0, 1))]
    s2 = st.copy()
    if st.ghost.get('stop'): st.ghost['empty'] = 1
    return [(st, C(1)), (s2, ZERO)]
def run_task(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, this)
    if eng.mode == 'worker' and v == TASK:
        if not st.ghost.get('pend'): eng.alarm('task-twice', fr, node, 'a worker executes a task again'); return []
        st.ghost.pop('pend'); st.ghost.pop('empty', None)
        return [(st, ZERO)]
    if eng.mode == 'worker' and (isinstance(v, Poly) and v == ZERO or isinstance(v, Opq) and v.tag == 'moved'):
        eng.alarm('no-task', fr, node, 'a worker calls an empty task: the exception ends the program'); return []
    return NotImplemented
def q_announce(eng, st, fr, fn, this, args, node):
    st.ghost['announced'] = 1
    return [(st, ZERO)]
def q_push(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, args[0])
    if v is None: raise Budget('submitted task')
    out = []
    sts = [(st, C(1))]
    if len(args) > 1:
        c = st.mem.get(args[1]) if isinstance(args[1], Loc) and args[1] in st.mem else args[1]
        sts = eng.lam_call(st, fr, c, [], node) if isinstance(c, Lam) else None
        if sts is None: raise Budget('push condition')
    for s, b in sts:
        for s2, t in eng.split(s, b):
            if t: s2.ghost['queued'] = s2.ghost.get('queued', ()) + (v,); out.append((s2, ZERO))
            else:
                eng.alarm('refused', fr, node, 'a running pool refuses the submitted task: its future is never fulfilled')
                e = s2.mem.get(args[2]) if len(args) > 2 and isinstance(args[2], Loc) and args[2] in s2.mem else args[2] if len(args) > 2 else None
                r = eng.lam_call(s2, fr, e, [], node) if isinstance(e, Lam) else [(s2, ZERO)]
                out += [(s3, ZERO) for s3, _ in r]
    return out

def worker_states(eng, fn, args, this, caps):
    st = State()
    st.mem[STATUS] = C(0)
    eng.mode = 'worker'
    return eng.inline(st, None, fn, this, args, None, caps)

def run(ctx):
    F = ctx.F
    recs = [r for q, r in F.records.items() if bq(q) == PN]
    if not recs: ctx.undec('thread pool not found'); return
    rec = recs[0]
    fns = [f for f in F.fns.values() if 'blocks' in f and bq(f.get('cls') or '') == PN]
    ctor = [f for f in fns if f.get('ctor') and f['p'] and rng(f['p'][0]) is not None]
    dtor = [f for f in fns if f.get('dtor') or f['n'].startswith('~')]
    adds = [f for f in fns if f['n'] == 'addTask']
    if not ctor or not dtor: ctx.undec('pool construction or destruction not found'); return
    al = lambda rule, f, msg: ctx.alarm(rule, f['file'], f['l'], f['q'], msg, key='%s|%s' % (rule, f['n']))
    P = Loc(('Pool',), ())
    allal = {}
    workers = {}
    def fresh_eng():
        e = PoolEngine(F, rec); e.needs_stop = True
        return e
    try:
        # the worker count for every request
        low = []
        def count(eng, st, fr, node, v):
            ctx.obl += 1; ctx.count('worker_counts')
            s = st.copy()
            try: s.assume('==', v)
            except Infeasible: return
            low.append((fr, node))
        eng = fresh_eng(); eng.hooks['workers'] = count
        st = State(); st.mem[STATUS] = C(0)
        try: eng.inline(st, None, ctor[0], P, [fresh('requested', 0, 2**64 - 1)], None)
        except Budget: pass
        for fr, node in low[:1]: ctx.alarm('no-worker', fr.fn['file'], node['l'], fr.fn['q'], 'the pool has no worker for some requested number: submitted tasks are never executed', key='no-worker')
        # worker bodies
        eng = fresh_eng()
        st = State(); st.mem[STATUS] = C(0)
        ex = eng.inline(st, None, ctor[0], P, [C(2)], None)
        allal.update(eng.alarms)
        by = {}
        for vs, fr, node in eng.threads: by[repr(vs)[:300] + str(node.get('l'))] = (vs, fr, node)
        needs = False
        for vs, fr, node in by.values():
            v = vs[0]
            w = fresh_eng()
            if isinstance(v, Lam):
                body = F.fns.get(v.fn.f['id'])
                this, args, caps = dict(v.caps).get('this'), [], dict(v.caps)
            elif isinstance(v, FnRef):
                body = F.fns.get(v.fn.f['id'])
                this, args, caps = (vs[1] if len(vs) > 1 else None), list(vs[2:]), None
            else: body = None
            if body is None or 'blocks' not in body: ctx.undec('worker function not recognised'); continue
            if isinstance(v, Lam):
                for nm, c in v.caps:
                    if isinstance(c, Loc) and c.base and isinstance(c.base[0], tuple) and c.base != P.base: ctx.alarm('dangling', fr.fn['file'], node['l'], fr.fn['q'], 'the worker refers to the local variable %s of the function that starts it' % nm, key='dangling-worker')
            exits = worker_states(w, body, args, this, caps)
            allal.update(w.alarms)
            ctx.count('worker_exit_states', len(exits))
            if not exits and not w.alarms: ctx.alarm('never-leaves', body['file'], body['l'], body['q'], 'no path of the worker leaves it: joining it never returns', key='never-leaves')
            for s, _ in exits:
                ctx.obl += 1
                g = s.ghost
                if not g.get('popfalse'): needs = True
                if g.get('pend'): ctx.alarm('task-dropped', body['file'], body['l'], body['q'], 'a worker can leave without executing the task it took', key='leave-pending')
                if not g.get('stop'): ctx.alarm('leaves-early', body['file'], body['l'], body['q'], 'a worker can leave although shutdown was not requested', key='leaves-running')
                elif not g.get('empty'): ctx.alarm('leaves-early', body['file'], body['l'], body['q'], 'a worker can leave without having seen the queue empty after it saw shutdown requested: a task accepted before is lost', key='leaves-nonempty')
        # construction and destruction together
        for n in range(0, 5 if ctx.tier == 'quick' else 9):
            eng = fresh_eng(); eng.needs_stop = needs
            st = State(); st.mem[STATUS] = C(0)
            for s, _ in eng.inline(st, None, ctor[0], P, [C(n)], None):
                started_n = s.ghost.get('nthr', 0)
                ctx.obl += 1; ctx.count('lifetimes')
                if started_n == 0: al('no-worker', ctor[0], 'a pool of %d requested workers starts none' % n)
                for s2, _ in eng.inline(s, None, dtor[0], P, [], None):
                    j = s2.ghost.get('joined', ())
                    ctx.obl += 1
                    if len(set(j)) != started_n: al('unjoined', dtor[0], 'only %d of %d started workers are joined' % (len(set(j)), started_n))
                    if not s2.ghost.get('announced') : al('no-announcement', dtor[0], 'shutdown is not announced to sleeping workers')
            if not eng.alarms and started_n is None: pass
            allal.update(eng.alarms)
        # submission to a running pool
        for f in adds:
            eng = fresh_eng()
            st = State(); st.mem[STATUS] = C(0)
            for q in eng.runf: st.mem[Loc(P.base, (q,))] = C(1)
            args, given = [], []
            for i, p in enumerate(f['p']):
                L = Loc(('given', i), ())
                v = Opq('given', (i,))
                given.append(v)
                if is_ref(p): st.mem[L] = v; args.append(L)
                else: args.append(v)
            ctx.count('submission_instances')
            ex = eng.inline(st, None, f, P, args, None)
            if not ex and not eng.alarms: ctx.undec('submission does not return')
            for s, ret in ex:
                ctx.obl += 1
                qd = s.ghost.get('queued', ())
                if len(qd) != 1: al('task-dropped' if not qd else 'task-twice', f, 'a task submitted to a running pool is queued %d times' % len(qd)); continue
                t = qd[0]
                while isinstance(t, Opq) and t.tag == 'callable': t = t.args[0]
                if isinstance(t, Lam):
                    dead = [nm for nm, c in t.caps if isinstance(c, Loc) and c.base and isinstance(c.base[0], tuple)]
                    if dead: al('dangling', f, 'the queued task refers to %s, a local variable of the function that has returned when a worker runs it' % dead[0]); continue
                fut = payload(eng, s, ret)
                s.ghost.pop('ptran', None)
                if isinstance(t, Lam): r = eng.lam_call(s, None, t, [], {'id': ('run',), 'l': ''})
                else: r = None
                if r is None: ctx.undec('queued task'); continue
                for s2, _ in r:
                    ran = s2.ghost.get('ptran', ())
                    if not isinstance(fut, Opq) or fut.tag != 'fut': ctx.undec('returned future not tracked'); continue
                    if len(ran) != 1: al('task-dropped' if not ran else 'task-twice', f, 'running the queued task executes the submitted function %d times' % len(ran))
                    elif fut.args != ('pt', ran[0]): al('wrong-future', f, 'the returned future is not the one the queued task fulfils')
                    pts = [v for v in s2.mem.values() if isinstance(v, Opq) and v.tag == 'ptask' and ran and v.args[0] == ran[0]]
                    if pts:
                        b = pts[0].args[1]
                        if isinstance(b, Opq) and b.tag == 'bound':
                            if b.args != tuple(given): al('wrong-task', f, 'the queued task calls %s instead of the given function with the given arguments' % (b.args,))
                        else: ctx.undec('bound call')
            allal.update(eng.alarms)
        if not adds: ctx.undec('no instance of addTask')
    except Budget as e: ctx.undec('pool: %s' % e)
    for a in allal.values():
        ctx.alarm(a['rule'], a['file'], a['line'], a['function'], a['msg'], key='%s|%s|%s' % (a['rule'], a['function'].split('::')[-1], a['line']))
    ctx.sample('constructor, worker, addTask and destructor of the pool; running flag %s' % [x.split('::')[-1] for x in running_fields(rec)])
