"""P08: every status code the library raises is registered exactly once in the built-in table, described and callable, and distinct errors have
distinct codes.  The registration routine is interpreted over the constant table of the source (constant propagation) and
yields the set of registered codes; every place that raises a status is found in the syntax tree and its code is traced back
through locals, conditionals and parameters to constants; setting, describing and calling back each code is interpreted."""
from common import *
from valmodel import *
import stdmap

ST = NS + 'Status'

class RegEngine(ValEngine):
    def __init__(self, F, log):
        super().__init__(F, 'impl', max_steps=400000)
        for k in [k for k in self.table if k.startswith(ST)]: del self.table[k]
        for k in ('PGBN_GetGlobalStatus', NS + 'PGBN_GetGlobalStatus'): self.table.pop(k, None)
        stdmap.install(self.table, log)
        T = self.table
        def svctor(eng, st, fr, fn, this, args, node):
            if fn.get('copy') or not args: return NotImplemented
            a = args[0]
            if isinstance(a, Loc) and a.base and a.base[0] == 'str': st.mem[this] = Opq('lit', (a.base[1],)); return [(st, this)]
            return NotImplemented
        T['std::basic_string_view::basic_string_view'] = svctor
        def lit(st, a):
            v = st.mem.get(a) if isinstance(a, Loc) else a
            return v.args[0] if isinstance(v, Opq) and v.tag in ('lit', 'text') else None
        def data(eng, st, fr, fn, this, args, node):
            l = lit(st, this)
            return [(st, Loc(('str', l), (ZERO,)))] if l is not None else NotImplemented
        def size(eng, st, fr, fn, this, args, node):
            l = lit(st, this)
            return [(st, C(len(l)))] if l is not None else NotImplemented
        def sctor(eng, st, fr, fn, this, args, node):
            if args and isinstance(args[0], Loc) and args[0].base and args[0].base[0] == 'str': st.mem[this] = Opq('text', (args[0].base[1],)); return [(st, this)]
            l = lit(st, args[0]) if args else None
            if l is not None: st.mem[this] = Opq('text', (l,)); return [(st, this)]
            return NotImplemented
        T['std::basic_string_view::data'] = data
        T['std::basic_string_view::size'] = T['std::basic_string_view::length'] = size
        T['std::basic_string::basic_string'] = sctor
        T['std::basic_string::operator='] = sctor
    def init_global(self, st, loc, q):
        v = self.F.varq.get(q)
        if v and not v.get('val') and v.get('ours') and v.get('init') is not None and q.rsplit('::', 1)[-1] and not st.ghost.get(('gi', q)):
            st.ghost[('gi', q)] = True
            fn = dict(id='init:' + q, q=q, n=v['n'], p=[], r='void', file=v['file'], l=v['l'], params=[], nodes=v['nodes'], decls=v['decls'], blocks=[dict(id=0, e=[], s=[])], entry=0, exit=0)
            fr = Frame((('init', q),), fn, None, 0, self.pre(fn), None, '')
            x = v['nodes'][v['init']]
            while x['k'] in ('ExprWithCleanups',): x = v['nodes'][x['c'][0]]
            val = self.deep(st, fr, x['id'])
            if isinstance(val, Loc): self.copy_tree(st, val, loc)
            elif val is not None: st.mem[loc] = val
            return
        super().init_global(st, loc, q)
    def deep(self, st, fr, nid):
        """evaluate a straight-line initialiser"""
        n = fr.pre.nodes[nid]
        for c in n.get('c') or []:
            if c is not None and (fr.id, c) not in st.env: self.deep(st, fr, c)
        self.ev(st, fr, nid)
        return st.env.get((fr.id, nid))

def entries(F):
    return [f for f in F.fns.values() if f.get('cls') == ST and 'blocks' in f]

def registry(ctx, F):
    """codes -> (description, callback) after the built-in registration, starting from an empty map"""
    m = list({v['q']: v for v in F.vars.values() if 'map<' in v['t'] and 'function' in v['t'] and v['q'].startswith(NS)}.values())
    if len(m) != 1: ctx.undec('status registry container not recognised'); return None
    M = Loc(('g', m[0]['q']), ())
    ev = []
    def log(eng, st, fr, node, what, mp, k):
        ev.append((what, mp, k, node['l'] if isinstance(node, dict) else '', fr.fn['q'] if fr else '', isinstance(mp, Loc) and st.ghost.get(('map', mp), ())))
    eng = RegEngine(F, log)
    st = State()
    # the routine that registers is whatever a first lookup runs: a lookup of a code that is not there
    cand = [f for f in entries(F) if f.get('static') and not f['p']]
    best = None
    for f in cand:
        del ev[:]
        s = State()
        try: ex = eng.inline(s, None, f, None, [], None)
        except Budget: continue
        for s2, _ in ex:
            ks = stdmap.keys(s2, M)
            if best is None or len(ks) > len(best[1]): best = (f, ks, s2, list(ev), len(ex))
    if not best or not best[1]: ctx.undec('built-in registration not recognised'); return None
    return best + (M, eng)

def consts(F, fn, nid, depth=0, seen=None):
    """set of constants an expression can have, None elements = unknown"""
    N = fn['nodes']; n = N[nid]
    if n.get('cv') is not None: return {int(n['cv'])} if not isinstance(n['cv'], bool) else {int(n['cv'])}
    k = n['k']
    if k in ('IntegerLiteral', 'CharacterLiteral'): return {int(n['v'])}
    if k == 'ConditionalOperator':
        return consts(F, fn, n['c'][1], depth, seen) | consts(F, fn, n['c'][2], depth, seen)
    if k == 'DeclRefExpr' and 'd' in n:
        d = next(x for x in fn['decls'] if x['id'] == n['d'])
        if d['k'] in ('global', 'enumconst', 'staticlocal'):
            v = F.varq.get(d['q'])
            if v and isinstance(v.get('val'), dict) and 'i' in v['val'] and (v.get('const') or v.get('constexpr')): return {int(v['val']['i'])}
            return {None}
        seen = seen or set()
        if (fn['id'], d['id']) in seen: return set()
        seen.add((fn['id'], d['id']))
        out = set()
        if d['k'] == 'param':
            i = next((i for i, p in enumerate(fn['params']) if p['d'] == d['id']), None)
            sites = 0
            if depth < 3 and fn['q'].startswith(NS):
                for g in F.fns.values():
                    if 'blocks' not in g: continue
                    for m in g['nodes']:
                        if m.get('fn', {}).get('id') == fn['id'] and m['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXOperatorCallExpr'):
                            a = m['c'][1:] if m['k'] != 'CXXConstructExpr' else m['c']
                            if i < len(a): out |= consts(F, g, a[i], depth + 1, seen); sites += 1
            if not sites: out.add(None)
        hit = d['k'] == 'param'
        for m in N:
            if m['k'] == 'DeclStmt':
                for x in m.get('ds') or []:
                    if x['d'] == d['id']:
                        hit = True
                        if x.get('init') is not None: out |= consts(F, fn, x['init'], depth, seen)
            if m['k'] == 'BinaryOperator' and m.get('op') == '=' and N[m['c'][0]]['k'] == 'DeclRefExpr' and N[m['c'][0]].get('d') == d['id']:
                out |= consts(F, fn, m['c'][1], depth, seen)
            if m['k'] in ('CompoundAssignOperator',) or (m['k'] == 'UnaryOperator' and m.get('op') in ('++', '--', '&')):
                if N[m['c'][0]].get('d') == d['id']: out.add(None)
        if not hit: out.add(None)
        return out
    if k == 'MemberExpr': return {None}
    if n.get('c') and len(n['c']) == 1: return consts(F, fn, n['c'][0], depth, seen)
    return {None}

def run(ctx):
    F = ctx.F
    # distinct constants
    E = [(v['q'], int(v['val']['i']), v) for v in F.vars.values() if '::ErrCode::' in v['q'] and isinstance(v.get('val'), dict) and 'i' in v['val']]
    E = list({q: (q, i, v) for q, i, v in E}.values())
    byv = {}
    for q, i, v in E:
        ctx.obl += 1
        if i in byv: ctx.alarm('distinct', v['file'], v['l'], q, 'has the same code %d as %s' % (i, byv[i]), key='distinct|' + q)
        byv.setdefault(i, q)
    ctx.cov['declared_codes'] = len(byv)
    if len(byv) < 5: raise AnalysisBroken('error codes not found')
    r = registry(ctx, F)
    reg = None
    if r:
        f, ks, st, ev, nex, M, eng = r
        ctx.sample('built-in registration %s registers %s' % (f['q'], sorted(ks)))
        reg = {}
        for k in ks:
            e = Loc(M.base, M.path + ('#e', k, 'std::pair::second'))
            d = st.mem.get(Loc(e.base, e.path + ('#t0',))); c = st.mem.get(Loc(e.base, e.path + ('#t1',)))
            reg[k] = (d, c)
            ctx.obl += 2
            txt = d.args[0] if isinstance(d, Opq) and d.tag in ('text', 'lit') else None
            if txt is None: ctx.undec('description of code %d' % k)
            elif not txt.strip(): ctx.alarm('described', f['file'], f['l'], f['q'], 'code %d (%s) has an empty description' % (k, byv.get(k)), key='described|%d' % k)
            if isinstance(c, Opq) and c.tag == 'bind' and isinstance(c.args[0], (FnRef, Lam)): pass
            elif isinstance(c, (FnRef, Lam)): pass
            elif isinstance(c, Opq) and c.tag == 'bindnull' or isinstance(c, Poly) and c == ZERO:
                ctx.alarm('callable', f['file'], f['l'], f['q'], 'code %d (%s) is registered without a callable callback' % (k, byv.get(k)), key='callable|%d' % k)
            else: ctx.undec('callback of code %d: %s' % (k, c))
            # the callback is bound to the code and text of its own row
            if isinstance(c, Opq) and c.tag == 'bind' and len(c.args) == 3:
                ctx.obl += 1
                if isinstance(c.args[1], Poly) and c.args[1].const() is not None and c.args[1].const() != k:
                    ctx.alarm('callable', f['file'], f['l'], f['q'], 'the callback of code %d reports code %s' % (k, c.args[1]), key='bound|%d' % k)
        # exactly once: every code is looked up / written once during registration of the table
        wr = {}
        for what, mp, k, l, q, have in ev:
            if what in ('index', 'emplace') and mp == M: wr.setdefault(k, []).append((l, q))
            if what == 'find' and mp == M and have and k in have: wr.setdefault(k, []).append((l, q))
        for k, w in wr.items():
            ctx.obl += 1
            if len(w) > 1: ctx.alarm('registered-once', f['file'], f['l'], f['q'], 'code %s is registered more than once by the built-in table' % k, key='once|%s' % k)
        for q, i, v in E:
            ctx.obl += 1
            if i not in reg: ctx.alarm('registered', v['file'], v['l'], q, 'error code %d is not in the built-in table' % i, key='registered|' + q)
    sites(ctx, F, reg, byv)
    if r: behave(ctx, F, r, reg)

def sites(ctx, F, reg, byv):
    n = 0
    for fn in sorted(F.fns.values(), key=lambda f: f['id']):
        if 'blocks' not in fn or not fn.get('ours') or fn.get('cls') == ST: continue
        if not (fn['file'].startswith(REPO + '/src') or fn['file'].startswith(REPO + '/C') or '/src/' in fn['file']): continue
        for m in fn['nodes']:
            g = m.get('fn')
            if not g or g.get('cls') != ST or not g.get('p') or rng(g['p'][0]) is None: continue
            if m['k'] == 'CXXOperatorCallExpr' and g['n'] == 'operator=': a = m['c'][2]
            elif m['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(g['p']) == 1: a = m['c'][0]
            else: continue
            n += 1
            cs = consts(F, fn, a)
            for c in sorted(cs, key=str):
                ctx.obl += 1
                if c is None: ctx.undec('%s:%s raises a code given by the caller' % (fn['q'], m['l'])); continue
                if reg is not None and c not in reg:
                    ctx.alarm('registered', m.get('f') or fn['file'], m['l'], fn['q'], 'raises status %d (%s), which is not registered' % (c, byv.get(c, 'no declared code')), key='raise|%s|%d' % (fn['q'], c))
                ctx.sample('%s raises %s' % (fn['q'], byv.get(c, c)))
    ctx.cov['raising_sites'] = n
    if n < 10: raise AnalysisBroken('raising sites not found')

def behave(ctx, F, r, reg):
    """set, describe and call back every registered code"""
    f, ks, st0, ev0, nex, M, eng0 = r
    fn_set = [f for f in entries(F) if f['n'] == 'operator=' and f['p'] and rng(f['p'][0])]
    ctor = [f for f in entries(F) if f.get('ctor') and len(f['p']) == 1 and rng(f['p'][0])]
    info = [f for f in entries(F) if f['n'] == 'getInfo' and not f['p']]
    rec = F.records.get(ST)
    code = [x['q'] for x in rec['fields'] if rng(x['t'])]
    for fn in fn_set + ctor:
        for k in ks:
            ev = []
            def log(eng, st, fr, node, what, mp, key): ev.append((what, mp, key, node, fr))
            eng = RegEngine(F, log)
            st = st0.copy(); X = Loc(('S',), ())
            try: ex = eng.inline(st, None, fn, X, [C(k)], None)
            except Budget as e: ctx.undec('%s: %s' % (fn['q'], e)); continue
            ctx.obl += 3
            for what, mp, key, node, fr in ev:
                if what == 'deref' and key == 'end': ctx.alarm('missing-entry', fr.fn['file'], node['l'], fr.fn['q'], 'dereferences the end of the status registry when raising %d' % k, key='end|' + fr.fn['q'])
            if not ex and exact(eng): ctx.alarm('missing-entry', fn['file'], fn['l'], fn['q'], 'raising the registered code %d always aborts' % k, key='abort|' + fn['q'])
            called = [k2 for what, mp, k2, *_ in ev if what == 'call']
            want = reg[k][1]
            for s, _ in ex:
                if code:
                    v = s.mem.get(Loc(X.base, (code[0],)))
                    if not isinstance(v, Poly): ctx.undec('%s: stored code' % fn['q'])
                    elif v.const() is not None and v.const() != k: ctx.alarm('stored', fn['file'], fn['l'], fn['q'], 'raising %d stores %s' % (k, v), key='stored|' + fn['q'])
                    elif v.const() is None: ctx.undec('%s: stored code %s' % (fn['q'], v))
                for g in info:
                    for s2, ret in eng.inline(s.copy(), None, g, X, [], None):
                        d = s2.mem.get(ret) if isinstance(ret, Loc) else None
                        if isinstance(ret, Loc) and ret.base[0] == 'g' and ret.base != M.base and exact(eng):
                            ctx.alarm('described', g['file'], g['l'], g['q'], 'the registered description of code %d is not found' % k, key='info|%d' % k)
                        elif not isinstance(d, Opq): ctx.undec('getInfo of %d' % k)
                        elif isinstance(reg[k][0], Opq) and d != reg[k][0]: ctx.alarm('described', g['file'], g['l'], g['q'], 'code %d is described as %s, registered %s' % (k, d, reg[k][0]), key='info|%d' % k)
            if len(called) > 1: ctx.alarm('callback-once', fn['file'], fn['l'], fn['q'], 'raising %d calls back %d times' % (k, len(called)), key='cb|' + fn['q'])
            if called and want is not None and called[0] != want: ctx.alarm('callback', fn['file'], fn['l'], fn['q'], 'raising %d calls the callback %s' % (k, called[0]), key='cbw|' + fn['q'])
            if not called and not isinstance(want, type(None)):
                ctx.alarm('callback', fn['file'], fn['l'], fn['q'], 'raising %d does not call its callback' % k, key='cbn|' + fn['q']) if exact(eng) else ctx.undec('callback of %d' % k)
    ctx.cov['interpreted_codes'] = len(ks)

def exact(eng):
    return not any(q.startswith('std::') and not q.startswith(('std::allocator', 'std::any')) for q in eng.unknown_calls)
