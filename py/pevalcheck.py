"""Abstract interpretation of parallel evaluation.  A submitted task is executed at once, which is the schedule of a pool with one
worker; a task that only waits for results of tasks submitted before it completes under every schedule (tasks start in the order
of submission), so the rules below decide all schedules."""
from concmodel import *
from common import *
import c_p10, exprref
from exprref import Unspecified, Malformed

PEVAL = NS + 'expr::peval'
PN = PAR + 'ThreadPool'

class PevalEngine(ThrowEngine):
    throws = False
    def __init__(self, F, **kw):
        super().__init__(F, **kw)
        T = self.table
        T[PN + '::ThreadPool'] = pool_ctor
        T[PN + '::~ThreadPool'] = lambda eng, st, fr, fn, this, args, node: [(st, ZERO)]
        T[PN + '::addTask'] = add_task
        T['std::function::operator()'] = chain(native, T.get('std::function::operator()'))
        h0 = self.hooks['dtor']
        def dtor(eng, st, fr, e, loc):
            cls = bq((e.get('fn') or {}).get('cls') or '')
            if cls == PN: eng.kill_tree(st, loc); return [st]
            return h0(eng, st, fr, e, loc)
        self.hooks['dtor'] = dtor
        self.hooks['write'] = glob_write
        self.hooks['subscript'] = array_bounds
        self.symthreads = None
    def intr_prefix(self, q, fn):
        h = super().intr_prefix(q, fn)
        if h is None and bq(fn.get('cls') or '') == PN: raise Budget('pool operation %s' % fn['n'])
        if h is None and fn['n'] == 'newNode' and 'NodePool' in q: return self.new_node
        return h
    def new_node(self, eng, st, fr, fn, this, args, node):
        body = self.F.fns.get(fn['id'])
        if body is None or 'blocks' not in body: return NotImplemented
        out = self.inline(st, fr, body, this, args, node)
        for s, v in out:
            if isinstance(v, Loc):
                if v in s.ghost.get('nodes', ()): self.alarm('node-reused', fr, node, 'two nodes of the expression share one place in the pool')
                s.ghost['nodes'] = s.ghost.get('nodes', ()) + (v,)
        return out

def array_bounds(eng, st, fr, n, b, i):
    c = fr.pre.nodes[n['c'][0]] if hasattr(fr.pre, 'nodes') else fr.fn['nodes'][n['c'][0]]
    while c['k'] in ('ImplicitCastExpr', 'ParenExpr') and c.get('c') and not str(c.get('t', '')).endswith(']'): c = fr.fn['nodes'][c['c'][0]]
    m = re.search(r'\[(\d+)\]$', str(c.get('t', '')))
    if not m or i.const() is None: return
    eng.obl['element'] += 1
    if not 0 <= i.const() < int(m.group(1)) and terms.satisfiable(st, []):
        eng.alarm('element-bounds', fr, n, 'element %d of an array of %s elements is accessed' % (i.const(), m.group(1)))
        raise Infeasible()

def glob_write(eng, st, loc, v, fr, node):
    if st.ghost.get('intask') and loc.base and loc.base[0] == 'g' and not st.ghost.get(('tls', loc)):
        q = loc.base[1]
        vs = eng.F.varq.get(q) or {}
        if vs.get('tls') or st.ghost.get('si'): return
        eng.alarm('shared-write', fr, node, 'evaluation tasks of different threads write the same variable %s without synchronisation' % str(q).split('::')[-1])

def pool_ctor(eng, st, fr, fn, this, args, node):
    if fn.get('copy') or fn.get('move'): return NotImplemented
    st.mem[Loc(this.base, this.path + ('#pool',))] = Opq('pool', ())
    v = args[0] if args else None
    if isinstance(v, Loc): v = eng.read(st, v, 'unsigned long', fr, node)
    eng.obl['pool'] += 1
    if isinstance(v, Poly):
        s = st.copy()
        try:
            s.assume('<=', C(2**33) - v)
            if terms.satisfiable(s, []): eng.alarm('workers', fr, node, 'the requested number of threads reaches the pool as an enormous number')
        except Infeasible: pass
    return [(st, this)]

def add_task(eng, st, fr, fn, this, args, node):
    f = payload(eng, st, args[0])
    vals = []
    for a, p in zip(args[1:], fn['p'][1:]):
        vals.append(eng.read(st, a, strip_ref(p), fr, node) if isinstance(a, Loc) and not is_class(strip_ref(p)) else a)
    if isinstance(f, Opq) and f.tag == 'bound': f, vals = f.args[0], list(f.args[1:]) + vals
    ptr = [v for v in vals if isinstance(v, Loc)]
    nd = ptr[0] if ptr else None
    if nd is None and isinstance(f, Lam):
        for nm, c in f.caps:
            x = st.mem.get(c) if isinstance(c, Loc) else c
            if isinstance(x, Loc) and x in st.ghost.get('nodes', ()): nd = x
    if isinstance(f, Poly) and f == ZERO or f is None: 
        if f is None: raise Budget('submitted callable')
        eng.alarm('null-callable', fr, node, 'an empty callable is submitted'); return []
    if nd is not None:
        if nd in st.ghost.get('started', ()):
            eng.alarm('started-twice', fr, node, 'a node of the expression is started twice'); return []
        st.ghost['started'] = st.ghost.get('started', ()) + (nd,)
        # operands first
        n = None
        for k in [k for k in st.mem if k.base == nd.base and k.path[:len(nd.path)] == nd.path and len(k.path) > len(nd.path) and isinstance(k.path[len(nd.path)], str) and k.path[len(nd.path)].endswith('::children')]:
            v = st.mem[k]
            if isinstance(v, Loc) and isinstance(k.path[-1], Poly) and v not in st.ghost['started']:
                eng.alarm('started-early', fr, node, 'a node is started before all of its operands were started: its worker waits for a result that may need the same worker'); return []
    st.ghost['before'] = tuple(st.mem.items())
    st.ghost['intask'] = st.ghost.get('intask', 0) + 1
    saved = st.mem.get(STATUS)
    if isinstance(f, Lam): r = eng.lam_call(st, fr, f, vals, node)
    elif isinstance(f, FnRef): r = eng.call(st, fr, eng.F.fns.get(f.fn.f['id'], f.fn.f), None, vals, node)
    else: raise Budget('submitted callable %s' % (f,))
    if r is None: raise Budget('submitted callable')
    out = []
    for s, v in r:
        k = s.ghost.get('ntask', 0) + 1
        s.ghost['ntask'] = k
        s.ghost['intask'] -= 1
        if '#throw' in s.ghost: s.ghost[('task', k)] = ('exc', s.ghost.pop('#throw'))
        else: s.ghost[('task', k)] = ('value', None)
        # a task changes its own node only
        for l, x in s.ghost.pop('before'):
            y = s.mem.get(l)
            if l.base == STATUS.base or y is None or y == x: continue
            if isinstance(x, Poly) and (not isinstance(y, Poly) or not terms.satisfiable(s, [('!=', y - x)])): continue
            if nd is not None and l.base == nd.base and l.path[:len(nd.path)] == nd.path: continue
            if l.base and l.base[0] in ('lam', 'chars', 'str') or len(l.base) == 3 and l.base[1] == 't' or l.base and isinstance(l.base[-1], str) and len(l.base) > 2: continue
            if l not in s.mem and isinstance(x, Poly): continue
            if l not in s.mem: continue
            eng.alarm('task-writes', fr, node, 'a task changes memory outside its node (%s): tasks of the same level run at the same time' % ('.'.join(str(x).split('::')[-1] for x in l.path)[:80],))
            break
        if saved is not None: s.mem[STATUS] = saved       # each worker has its own status
        loc = tmp(fr, node)
        s.mem[loc] = Opq('fut', ('task', k))
        out.append((s, loc))
    return out

def native(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, this)
    if not (isinstance(v, Opq) and v.tag == 'native'): return NotImplemented
    if not eng.throws: return NotImplemented
    a = args[0]
    n = vsize(st, a) if isinstance(a, Loc) else None
    if n is None: raise Budget('native call')
    vs = tuple(eng.getv(st, elem(a, i)) for i in range(n))
    s2 = st.copy()
    s2.ghost['#throw'] = Opq('exc', ('native', v.args[0], vs))
    s2.ghost['threw'] = s2.ghost.get('threw', ()) + ((v.args[0], vs),)
    loc = tmp(fr, node)
    st.mem[loc] = r = app(('native', v.args[0]), vs)
    st.ghost['calls'] = st.ghost.get('calls', ()) + ((v.args[0], vs, r),)
    return [(st, loc), (s2, ZERO)]

class Thrown(Exception): pass

def interpret(F, text, threads=C(4), fix=(), throws=False, secs=6, chars=None, keep=None):
    eng = PevalEngine(F)
    if keep is not None: keep.append(eng)
    eng.throws = throws
    eng.deadline = time.process_time() + secs
    st = State()
    cs = chars or tuple(C(ord(c)) for c in text)
    st.mem[STATUS] = C(CODES.get('SUCCESS', 0))
    A = Loc(('arg',), ())
    st.mem[A] = Opq('sv', (mk(cs), arr(st, ('user',), cs, False)))
    lits = {}
    def literal(st, t, radix):
        if radix == 10 and len(t) == 3 and t[0] == '1' and t.isdigit():
            if t in fix: return C(fix[t])
            if t not in lits: lits[t] = fresh('x' + t, 0, BIG)
            st.ghost[('lit', t)] = lits[t]
            return lits[t]
    eng.hooks['literal'] = literal
    eng.hooks['symbols'] = c_p10.hook_symbols
    fns = [f for f in F.byq.get(PEVAL, []) if 'blocks' in f]
    fn = fns[0]
    exits = eng.inline(st, None, fn, None, [A, threads, ZERO][:len(fn['p'])], None)
    return eng, fn, exits

def report(ctx, eng, text):
    for a in eng.alarms.values():
        ctx.alarm(a['rule'], a['file'], a['line'], a['function'], 'in parallel evaluation of "%s": %s' % (text[:200], a['msg']), key='%s|%s|%s' % (a['rule'], a.get('function', '').split('::')[-1], a['line']))

def check(ctx, text, tree, shape, threads, throws, structure, values):
    names = sorted({d for d in re.findall(r'\b1\d\d\b', text)})
    res = None
    keep = []
    for fix in ({}, {n: 2 + i for i, n in enumerate(names[1:])}, {n: 5 - i for i, n in enumerate(names)}):
        try: res = interpret(ctx.F, text, threads, fix, throws, keep=keep); break
        except Budget as e: why = e
        except (KeyError, IndexError, TypeError) as e:
            if os.environ.get('PGBN_STRICT'): raise
            why = repr(e)
    if res is None:
        # what was found before the analysis gave up stands on its own evidence
        if structure: report(ctx, keep[0], text)
        ctx.undec('%s: %s' % (text, why)); return
    eng, fn, exits = res
    ctx.count('texts'); ctx.count('exit_states', len(exits)); ctx.count('tasks', sum(len(s.ghost.get('started', ())) for s, _ in exits))
    if structure:
        report(ctx, eng, text)
        if not exits and not eng.alarms: ctx.alarm('no-return', fn['file'], fn['l'], PEVAL, 'no path of the parallel evaluation of "%s" returns' % text, key='no-return')
    for s, ret in exits:
        ctx.obl += 1
        g = s.ghost
        if structure and g.get('ntask'):
            for nd in g.get('nodes', ()):
                ctx.obl += 1
                if nd not in g.get('started', ()): ctx.alarm('not-started', fn['file'], fn['l'], PEVAL, 'a node of "%s" is never started' % text, key='not-started'); break
            mine = [k[1] for k in g if isinstance(k, tuple) and k[0] == 'prom']
            un = [nd for nd in g.get('nodes', ()) if not any(isinstance(p, Loc) and p.base == nd.base and p.path[:len(nd.path)] == nd.path for p in mine)]
            if un and mine: ctx.alarm('unfulfilled', fn['file'], fn['l'], PEVAL, 'the task of a node of "%s" ends without fulfilling its promise%s' % (text, ' when a function throws' if g.get('threw') else ''), key='unfulfilled')
        if not values and not throws: continue
        thrown = '#throw' in g
        v = None
        if not thrown and isinstance(ret, Loc):
            x = eng.getv(s, ret)
            v = x if isinstance(x, Poly) else None
        if v is None and not thrown: ctx.undec('%s: result not tracked' % text); continue
        lv = {d: g[('lit', d)] for d in names if ('lit', d) in g}
        syms = tuple(lv.values()) + tuple(x for k, x in g.items() if isinstance(k, tuple) and k[0] == 'const') + tuple(x for c in g.get('calls', ()) for x in c[1] + c[2:])
        threw = g.get('threw', ())
        bad = unk = None
        n = 0
        for val in terms.models(s, ([v] if v is not None else []) + list(syms), (), tries=600, want=16):
            env = {d: (fix[d] if d in fix else val.ev(lv[d]) if d in lv else 0) for d in names}
            base = c_p10.native_value(val, s)
            tt = set()
            try:
                for nm, a in threw: tt.add((nm, tuple(val.ev(x) for x in a)))
            except (terms.Unknown, terms.Bad): unk = True; break
            def nat(name, a):
                if a is not None and (name, tuple(a)) in tt: raise Thrown()
                return base(name, a)
            try: exp = exprref.value(tree, lambda l: env.get(l[2], l[0]), nat)
            except Thrown: exp = 'exception'
            except (Unspecified, terms.Bad): continue
            if thrown: got = 'exception'
            else:
                try: got = val.ev(v)
                except terms.Unknown: unk = True; break
                except terms.Bad: continue
            n += 1
            # the same call may have returned once and thrown once on this path
            if tt and any((c[0], tuple(val.ev(x) for x in c[1])) in tt for c in g.get('calls', ())): n -= 1; continue
            if got != exp: bad = (env, got, exp); break
        if unk: ctx.undec('%s: result %s' % (text, v))
        elif bad and (values or 'exception' in bad[1:]):
            ctx.alarm('parallel-value', fn['file'], fn['l'], PEVAL, 'parallel evaluation of "%s" gives %s for %s; the sequential value is %s' % (text, str(bad[1])[:60], bad[0], str(bad[2])[:60]), key='parallel-value|' + ' '.join(shape))
        elif n: ctx.count('compared_valuations', n)
        if len(ctx.samples) < 3: ctx.sample('"%s" -> %s' % (text, 'exception' if thrown else str(v)[:160]))

STRUCT = ['#', 'c', 'h ( )', 'f ( # )', 'f ( # , # )', 'f ( f ( # ) , # )', '# + #', '# - # - #', '# * # + #', '# + # * #', '- #', '- - #', '# !', '( # )', '# ? # : #', '# ? # : # ? # : #',
          '# ? # ? # : # : #', 'f ( # ) ? # : #', '# ? f ( # ) : #', '# ? # : f ( # )', '# + f ( # ) * g ( # , # )', '- ( # + # )', '( # + # ) * ( # - # )', '# == # ? # : #', 'f ( # ? # : # , - # )',
          '# << 3', '# >> 2', '# & # | # ^ #', '~ #', '# / #', '# % #', 'f ( ) + h ( )', 'c + k2', '# ** 2', '# < # ? # - # : # - #', 'f ( # ) + # !']
def shapes(thorough, full):
    out = list(STRUCT)
    out.append(' '.join(['#'] + ['+ #'] * 12)); out.append(' '.join(['#'] + ['+ #'] * 17)); out.append(' '.join(['-'] * 35 + ['#']))
    out.append('f ( ' + ' , '.join(['#'] * 33) + ' )')
    if not full: out.append('f ( ' + ' , '.join(['#'] * 70) + ' )')
    B = exprref.BIN
    for o in B:
        out += ['# %s #' % o, '( # %s # ) + #' % o, 'f ( # %s # )' % o]
        if full:
            for o2 in [l[0] for l in exprref.LEVELS]: out += ['# %s # %s #' % (o, o2)] + (['# %s ( # %s # )' % (o, o2)] if thorough or o2 in ('+', '*') else [])
            out += ['# ? # %s # : #' % o, '# ! %s #' % o, '- # %s #' % o]
    if thorough:
        for o in B:
            for o2 in B: out.append('# %s # %s # ' % (o, o2)); out.append('# ? # %s # : # %s #' % (o, o2))
        out.append(' '.join(['#'] + ['+ #'] * 40))
    return [tuple(s.split()) for s in dict.fromkeys(out)]

def narrowed(ctx):
    """expressions have any number of nodes and operands: an index or count squeezed into fewer than 32 bits wraps around, and the
    dependency bookkeeping then starts a node too early or never"""
    for f in ctx.F.fns.values():
        if 'blocks' not in f or not (f['q'] == PEVAL or f['q'].startswith(PEVAL + '::') or re.search(r'::NodePool::(newNode|get|count)$', f['q'])): continue
        N = f['nodes']
        for n in N:
            if not n or not n['k'].endswith('CastExpr') or n.get('ck') != 'IntegralCast' or 'cv' in n: continue
            c = N[n['c'][0]]
            a, b = rng(n.get('t', '').replace('const ', '')), rng(c.get('t', '').replace('const ', ''))
            ctx.obl += 1; ctx.count('integer_conversions')
            if a is None or b is None or 'cv' in c: continue
            if a[1] - a[0] < 2 ** 32 - 1 <= b[1] - b[0] and a[1] > 1:
                # an operand that is an 8- or 16-bit value promoted to int before is no narrowing
                m = c
                while m['k'] in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and m.get('c') and rng(m.get('t', '').replace('const ', '')) is not None: m = N[m['c'][0]]
                r = rng(m.get('t', '').replace('const ', ''))
                if r is not None and r[1] - r[0] < 2 ** 32 - 1: continue
                ctx.alarm('narrowed', f['file'], n['l'], f['q'], 'a number of nodes, operands or an index (%s) is stored as %s: from %d on it wraps around and nodes are started too early or never' % (c['t'], n['t'], a[1] + 1), key='narrowed|%s' % f['n'])

def shared_statics(ctx):
    """the tasks of one evaluation run at the same time: whatever one of them writes in static storage, another one overwrites"""
    import effects
    E = effects.Effects(ctx.F)
    done = set()
    for i, f in E.fns.items():
        ts = [strip_ref(t).replace('const ', '') for t in f['p']]
        if 'blocks' not in f or f.get('cls') or not ts or not ts[0].endswith('ExprNode *') or len(ts) > 2: continue
        ctx.obl += 1; ctx.count('task_functions')
        for r, ss in E.W[i].items():
            if r == effects.T or r[0] != 'G' or effects.SYNC.search(r[2]): continue
            for s in ss.values():
                key = 'task-static|%s|%s' % (r[1].split('::')[-1], s['function'].split('::')[-1])
                if key in done: continue
                done.add(key)
                ctx.alarm('task-static', s['file'], s['line'], s['function'], 'a task of parallel evaluation (%s) changes %s, which all tasks share (%s): tasks running at the same time take each other\'s values' % (f['q'].split('::')[-1], r[1].split('::')[-1], s['what']), key=key)

def run_all(ctx, structure, values):
    if not [f for f in ctx.F.byq.get(PEVAL, []) if 'blocks' in f]: ctx.undec('expr::peval not found'); return
    if structure: narrowed(ctx)
    if values: shared_statics(ctx)
    items = []
    thorough = ctx.tier == 'thorough'
    for sh in shapes(thorough, values):
        p = c_p10.prepare(sh)
        if p is None: continue
        text, tree = p
        calls = sum(text.count(x + '(') for x in ('f', 'g', 'h'))
        items.append((sh, text, tree, C(4), False))
        if calls: items.append((sh, text, tree, C(4), True))
        if len(items) < 20:
            for t in (1, 0, -1): items.append((sh, text, tree, C(t), False))
            items.append((sh, text, tree, fresh('threads', -2**31, 2**31 - 1), False))
    def work(sub, ch):
        for sh, text, tree, th, throws in ch:
            if late(sub, text): continue
            try: check(sub, text, tree, sh, th, throws, structure, values)
            except AnalysisBroken: raise
            except Exception as e:
                if os.environ.get('PGBN_STRICT'): raise
                sub.undec('%s: %r' % (text, e))
    pmap(ctx, work, [items[i::48] for i in range(48)])
    if structure:
        # texts that are not expressions: an answer, no waiting
        def bad(sub, t):
            try: eng, fn, ex = interpret(sub.F, t)
            except Exception as e: sub.undec('%r: %r' % (t, e)); return
            sub.count('malformed_texts'); sub.obl += 1
            for a in eng.alarms.values():
                if a['rule'] in ('waits-forever', 'promise-twice', 'future-twice', 'started-twice', 'started-early'):
                    sub.alarm(a['rule'], a['file'], a['line'], a['function'], 'in parallel evaluation of "%s": %s' % (t, a['msg']), key='%s|%s|%s' % (a['rule'], a['function'].split('::')[-1], a['line']))
        pmap(ctx, bad, ['', ' ', '1+', '(1', '1)', 'f(', 'f(1', '1 2', '*', '1?2', '1?2:', 'nosuch', 'nosuch(1)', 'g(1)', 'f(1,', ')', '?:', '1..2', '0x'])
