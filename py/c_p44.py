"""P44: the decimal rendering of a fraction is interpreted over abstract numerators and denominators, with the texts of numbers
partitioned by their length; at every exit state the text must have at most the requested number of digits behind the point and
denote the truncated quotient, sign included."""
from exprmodel import *
from common import *
import re, terms, c_p20
FR = c_p20.FR
A = Loc(('A',), ())

def digits_str(eng, st, v, radix, limit):
    """[(state, characters)] of the text of v"""
    out = []
    for sg in (0, 1, -1):
        s = st.copy(); s.ghost['#v'] = v
        try:
            if sg == 0: s.assume('==', v)
            else: s.assume('<=', C(1) - v * sg)
        except Infeasible: continue
        w = s.ghost.pop('#v') * sg
        if sg == 0: out.append((s, (C(48),))); continue
        for k in range(1, limit + 1):
            t = s.copy(); t.ghost['#v'] = w
            try:
                if k > 1: t.assume('<=', C(radix ** (k - 1)) - w)
                t.assume('<=', t.ghost['#v'] + C(1 - radix ** k))
            except Infeasible: continue
            x = t.ghost.pop('#v')
            if not terms.satisfiable(t, [('<=', C(1) - x)]): continue
            cs = tuple(app(('dig', radix, j, k), (x,), 48, 57 if radix <= 10 else 122) for j in range(k))
            out.append((t, ((C(45),) if sg < 0 else ()) + cs))
    return out

class FracEngine(ExprEngine):
    def __init__(self, F, limit):
        super().__init__(F, 'bi', max_steps=400000)
        T = self.table
        def tostr(eng, st, fr, fn, this, args, node):
            r = args[0].const() if args and isinstance(args[0], Poly) else 10
            if r != 10: raise Budget('radix %s' % r)
            v = eng.getv(st, this)
            out = []
            eng.obl['text'] += 1
            for s, cs in digits_str(eng, st, v, 10, limit):
                loc = tmp(fr, node); s.mem[loc] = mk(cs); out.append((s, loc))
            return out
        T[BI + '::toString'] = tostr
        for nm in ('append', 'basic_string', 'insert', 'resize', 'push_back'):
            q = 'std::basic_string::' + nm
            T[q] = self.counted(T.get(q))
        old = T.get('std::basic_string::insert')
        def insert(eng, st, fr, fn, this, args, node):
            if not args or not isinstance(args[0], Poly): return NotImplemented
            i = args[0].const(); r = txt(eng, st, this)
            if i is None or r is None or len(args) < 2: return NotImplemented
            f2 = dict(fn, p=fn['p'][1:])
            a = from_args(eng, st, fr, f2, args[1:], node)
            if a is None: return NotImplemented
            if i > len(r): return []
            st.mem[this] = mk(tuple(r[:i]) + tuple(a) + tuple(r[i:]))
            return [(st, this)]
        T['std::basic_string::insert'] = chain2(insert, old)
    def counted(self, h):
        """a number of characters that is negative as a signed value is an enormous text"""
        def g(eng, st, fr, fn, this, args, node):
            if len(args) >= 2 and isinstance(args[0], Poly) and 'long' in fn['p'][0] and args[0].const() is not None and args[0].const() > 2 ** 40:
                if terms.satisfiable(st, []): eng.alarm('text-length', fr, node, 'a text of %d characters is requested' % args[0].const())
                return []
            return h(eng, st, fr, fn, this, args, node) if h else NotImplemented
        return g

def chain2(a, b):
    def h(*x):
        r = a(*x)
        return b(*x) if r is NotImplemented and b else r
    return h

def expected(num, den, n):
    """the truncated quotient, scaled by 10**n"""
    q = abs(num) * 10 ** max(n, 0) // abs(den)
    return -q if (num < 0) != (den < 0) else q

def denotes(t, n):
    """the value of the text scaled by 10**n, None when it is no decimal text of at most n fraction digits"""
    m = re.fullmatch(r'(-?)(\d+)(?:\.(\d*))?', t)
    f = m and (m.group(3) or '')
    if not m or len(f) > max(n, 0): return None
    v = int(m.group(2) + f.ljust(max(n, 0), '0'))
    return -v if m.group(1) else v

def one(ctx, fn, NUM, DEN, n, sn, sd, big):
    st = State(); st.mem[STATUS] = C(CODES['SUCCESS'])
    nu = fresh('num', 0, big) if sn > 0 else fresh('num', -big, -1)
    de = fresh('den', 1, big) if sd > 0 else fresh('den', -big, -1)
    st.mem[Loc(A.base, (NUM,))] = nu; st.mem[Loc(A.base, (DEN,))] = de
    st.ghost['io'] = (nu, de)
    eng = FracEngine(ctx.F, max(n, 0) + len(str(big)) + 1)
    eng.deadline = time.process_time() + 20
    name = '%s(%d)' % (fn['n'], n)
    try: ex = eng.inline(st, None, fn, A, [C(n)][:len(fn['p'])], None)
    except Budget as e:
        for al in eng.alarms.values(): ctx.alarm(al['rule'], al['file'], al['line'], fn['q'], al['msg'], key=al['rule'])
        ctx.undec('%s: %s' % (name, e)); return
    for al in eng.alarms.values(): ctx.alarm(al['rule'], al['file'], al['line'], fn['q'], al['msg'], key=al['rule'])
    ctx.count('cases'); ctx.count('exit_states', len(ex))
    for s, ret in ex:
        ctx.obl += 1
        t = txt(eng, s, ret) if isinstance(ret, Loc) else None
        if t is None: ctx.undec('%s: text not tracked' % name); continue
        a, b = s.ghost['io']
        k = 0; unk = bad = None
        for val in terms.models(s, [a, b] + list(t), (), tries=800, want=40):
            try:
                va, vb = val.ev(a), val.ev(b)
                if vb == 0: continue
                got = ''.join(chr(val.ev(c)) for c in t)
            except terms.Unknown as e: unk = e; break
            except terms.Bad: continue
            k += 1
            e = expected(va, vb, n)
            if denotes(got, n) != e: bad = (va, vb, got, '%s * 10**-%d' % (e, max(n, 0))); break
        if bad: ctx.alarm('decimal-text', fn['file'], fn['l'], fn['q'], 'the fraction %d/%d with %d digits is rendered as %s instead of %s' % (bad[0], bad[1], n, bad[2], bad[3]), key='decimal-text|%s|%s' % (sn, sd))
        elif unk: ctx.undec('%s: %s' % (name, unk))
        else: ctx.count('compared_valuations', k)
        if len(ctx.samples) < 3: ctx.sample('%s of num %s/%d -> %s' % (name, sn, sd, ''.join(chr(c.const()) if c.const() is not None else 'd' for c in t)))

def run(ctx):
    rec = ctx.F.records.get(FR)
    fl = [f['q'] for f in rec['fields'] if f['t'].endswith('BigInteger')] if rec else []
    fns = [f for f in ctx.F.byq.get(FR + '::toDecimal', []) if 'blocks' in f]
    if len(fl) != 2 or not fns: ctx.undec('decimal rendering not found'); return
    NUM, DEN = fl if fl[0].endswith('num') or not fl[1].endswith('num') else fl[::-1]
    th = ctx.tier == 'thorough'
    # digit counts: small ones, those around every constant of the code, and some larger ones
    lits = {int(x['v']) for f in fns for x in f['nodes'] if x and x['k'] == 'IntegerLiteral'}
    ns = {-1, 0, 1, 2, 3, 5, 8, 20, 40} | {v + d for v in lits if v <= 40 for d in (-1, 0, 1)} | ({4, 6, 7, 9, 12, 18} if th else set())
    jobs = [(n, sn, sd, big) for n in sorted(ns) for sn in (1, -1) for sd in (1, -1) for big in ((20, 999) + ((10 ** 6,) if th else ()))]
    def work(sub, ch):
        for n, sn, sd, big in ch:
            if late(sub, n): continue
            for fn in fns:
                try: one(sub, fn, NUM, DEN, n, sn, sd, big)
                except AnalysisBroken: raise
                except Exception as e:
                    if os.environ.get('PGBN_STRICT'): raise
                    sub.undec('%d: %r' % (n, e))
    pmap(ctx, work, [jobs[i::24] for i in range(24)])
