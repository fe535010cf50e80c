"""P09: the registration routine and every status entry point (lookup, construction, assignment, description, callback, per-thread instance) are
interpreted over a model of the registry, starting from a fresh process, after a user registration, and again in a thread that
starts later.  Required: no entry finds a built-in code missing, built-in registration writes the registry only inside one-time
process-wide initialisation (a function-local static or call_once), at most once, and a user's entry is never replaced."""
from common import *
from valmodel import *
import stdmap
from c_p08 import RegEngine, entries, ST, exact

def run(ctx):
    F = ctx.F
    m = list({v['q']: v for v in F.vars.values() if 'map<' in v['t'] and 'function' in v['t'] and v['q'].startswith(NS)}.values())
    if len(m) != 1: ctx.undec('status registry container not recognised'); return
    M = Loc(('g', m[0]['q']), ())
    if m[0].get('tls'): ctx.alarm('shared', m[0]['file'], m[0]['l'], m[0]['q'], 'the registry is per thread: a registration is invisible to threads started later')
    tls_globals = {v['q'] for v in F.vars.values() if v.get('tls')}
    E = entries(F)
    def pick(n, p): return [f for f in E if f['n'] == n and p(f) and f.get('access') != 'private']
    ints = lambda f: len(f['p']) >= 1 and rng(f['p'][0]) is not None
    look = pick('find', ints) + pick('getInfo', ints) + pick('getCallback', ints) + pick('operator=', ints) + [f for f in E if f.get('ctor') and ints(f)]
    inst = pick('getInstance', lambda f: not f['p'])
    regs = [f for f in E if f['n'] == 'registe' and len(f['p']) == 2 and ints(f)]
    if not look or not regs: raise AnalysisBroken('status entry points not found')
    K = sorted({c for c in CODES.values()})
    ev = []
    def log(eng, st, fr, node, what, mp, k):
        if mp != M: return
        g = st.ghost
        ev.append((what, k, fr, node, g.get('si', ()), g.get('once', 0), g.get('lock', 0), g.get('user', 0), k in g.get(('map', mp), ())))
        if what in ('index', 'emplace') and not g.get('user'):
            # written during an entry point
            n = g.get(('w', k), 0)
            g[('w', k)] = n + 1
            if n >= 1: two.append((k, fr, node))
    two = []
    eng = RegEngine(F, log)
    T = eng.table
    def call_once(eng, st, fr, fn, this, args, node):
        if not isinstance(args[0], Loc): return NotImplemented
        if st.ghost.get(('onceflag', args[0])): return [(st, ZERO)]
        st.ghost[('onceflag', args[0])] = True
        v = st.mem.get(args[1]) if isinstance(args[1], Loc) else args[1]
        st.ghost['once'] = st.ghost.get('once', 0) + 1
        if isinstance(v, Lam): r = eng.lam_call(st, fr, v, args[2:], node)
        elif isinstance(v, FnRef): r = eng.call(st, fr, eng.F.fns.get(v.fn.f['id'], v.fn.f), None, args[2:], node)
        else: return NotImplemented
        for s, _ in r: s.ghost['once'] -= 1
        return r
    T['std::call_once'] = call_once
    def lock(eng, st, fr, fn, this, args, node):
        st.ghost['lock'] = st.ghost.get('lock', 0) + 1
        return [(st, this)]
    for c in ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock'): T['std::%s::%s' % (c, c)] = lock
    def new_thread(st):
        s = st.copy()
        for g in list(s.ghost):
            if isinstance(g, tuple) and g[0] == 'tls':
                s.ghost.pop(('sl', g[1]), None)
        for q in tls_globals:
            s.ghost.pop(('gi', q), None)
            for k in [k for k in s.mem if k.base[:2] == ('g', q)]: del s.mem[k]
        return s
    def call(st, f, k, user=False):
        del ev[:], two[:]
        if user: st.ghost['user'] = 1
        args = []
        for i, p in enumerate(f['p']):
            if i == 0: args.append(C(k))
            elif 'string_view' in p:
                st.mem[Loc(('uinfo',), ())] = Opq('lit', ('the user text',)); args.append(Loc(('uinfo',), ()))
            elif is_ptr(p):
                args.append(Loc(('outp',), ()))
            else: args.append(ZERO)
        r = eng.inline(st, None, f, None if f.get('static') else Loc(('S',), ()), args, None)
        ctx.obl += 1
        if not r and exact(eng): ctx.alarm('registered-first', f['file'], f['l'], f['q'], 'using it with the built-in code %s ends in an abort: the code is not registered' % k, key='abort|' + f['q'])
        for s, _ in r: s.ghost.pop('user', None); s.ghost.pop('lock', None)
        return r
    def text(s, k):
        e = Loc(M.base, M.path + ('#e', k, 'std::pair::second'))
        v = s.mem.get(Loc(e.base, e.path + ('#t0',)))
        return v.args[0] if isinstance(v, Opq) and v.tag in ('text', 'lit') else None
    def unsafe():
        for what, k, fr, node, si, once, lk, user, have in ev:
            if what not in ('index', 'emplace') or user: continue
            ctx.obl += 1
            if not si and not once and lk: ctx.undec('registration under a lock'); continue
            if not si and not once:
                ctx.alarm('one-time', fr.fn['file'], node['l'], fr.fn['q'], 'the registry is written outside one-time initialisation (reached through %s)' % ' > '.join(fr.chain()), key='one-time|' + fr.fn['q'])
            elif si and not once and all(t for _, t in si):
                ctx.alarm('one-time', fr.fn['file'], node['l'], fr.fn['q'], 'the registry is written by an initialiser that runs once per thread', key='perthread|' + fr.fn['q'])
        for what, k, fr, node, si, once, lk, user, have in ev:
            if what == 'deref' and k == 'end':
                ctx.alarm('registered-first', fr.fn['file'], node['l'], fr.fn['q'], 'dereferences the end of the registry: built-in codes were not registered before (through %s)' % ' > '.join(fr.chain()), key='end|' + fr.fn['q'])
        for k, fr, node in two:
            ctx.alarm('once', fr.fn['file'], node['l'], fr.fn['q'], 'code %s is registered again by a later use' % k, key='again|' + fr.fn['q'])
    def present(s, f, ret, k):
        ctx.obl += 1
        if k not in stdmap.keys(s, M):
            if exact(eng): ctx.alarm('registered-first', f['file'], f['l'], f['q'], 'status %d is not registered although %s was used' % (k, f['n']), key='first|' + f['q'])
            else: ctx.undec('%s: registration' % f['q'])
        elif f['n'] == 'find':
            if isinstance(ret, (Cond, bool)): ret = None
            if isinstance(ret, Poly) and ret == ZERO: ctx.alarm('registered-first', f['file'], f['l'], f['q'], 'the first lookup does not find the built-in code %d' % k, key='firstlookup|' + f['q'])
    try:
        for f in look:
            for k in (K if ctx.tier == 'thorough' else [K[0], K[1], K[-1]]):
                for s, ret in call(State(), f, k):
                    unsafe(); present(s, f, ret, k)
                    ctx.count('histories')
                    # a second use in the same thread, and a first use in a thread that starts later
                    for nt in (False, True):
                        s1 = new_thread(s) if nt else s.copy()
                        for g in look[:2] + inst:
                            for s2, ret in call(s1.copy(), g, k): unsafe(); ctx.count('histories')
        ctx.sample('fresh process: %s find their code registered, inside one-time initialisation' % ', '.join(f['n'] for f in look))
        # user registration first / in between, then later threads
        ukeys = [K[1], 4711]
        for u in regs:
            for uk in ukeys:
                starts = [('first', State())] + [('after ' + f['n'], s) for f in look + inst for s, _ in call(State(), f, K[1])]
                for what, s in starts:
                    for s1, _ in call(s.copy(), u, uk, user=True):
                        if text(s1, uk) != 'the user text':
                            ctx.undec('user registration %s: %s' % (u['q'], text(s1, uk))) if text(s1, uk) is None else ctx.alarm('kept', u['file'], u['l'], u['q'], 'a registration of code %d (%s) has no effect' % (uk, what), key='noeffect|' + u['q'])
                            continue
                        for nt in (False, True):
                            for g in look + inst:
                                for s2, _ in call(new_thread(s1) if nt else s1.copy(), g, uk):
                                    ctx.obl += 1; ctx.count('histories')
                                    unsafe()
                                    t = text(s2, uk)
                                    if t != 'the user text':
                                        if exact(eng): ctx.alarm('kept', g['file'], g['l'], g['q'], 'the user registration of code %d (made %s) is replaced by "%s" when %s%s uses %s' % (uk, what, t, 'a thread started later' if nt else 'the program', '', g['n']), key='kept|' + g['n'])
                                        else: ctx.undec('%s after user registration' % g['n'])
                                    for s3, _ in call(new_thread(s2), look[0], uk):
                                        unsafe()
                                        if text(s3, uk) != 'the user text' and t == 'the user text' and exact(eng):
                                            ctx.alarm('kept', g['file'], g['l'], g['q'], 'the user registration of code %d is lost in a later thread' % uk, key='kept2|' + g['n'])
    except Budget as e:
        ctx.undec('budget: %s' % e)
    ctx.sample('user entries survive %s histories' % ctx.cov.get('histories'))
    ctx.cov['entry_points'] = len(look) + len(inst)
