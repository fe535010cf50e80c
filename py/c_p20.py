"""P20: no fraction has denominator zero.  Every public operation on fractions is interpreted abstractly over the value-level model of the
integers, assuming the denominators of its inputs non-zero (any sign); on every exit the denominator of every fraction it
leaves behind must be non-zero, an attempt to make it zero must be reported as division by zero, and every divisor used for
reduction must be non-zero (the loop of gcd included)."""
from common import *
from valmodel import *

FR = NS + 'experimental::Fraction'
A, B = Loc(('A',), ()), Loc(('B',), ())

def gcd_intr(eng, st, fr, fn, this, args, node):
    a, b = eng.getv(st, args[0]), eng.getv(st, args[1])
    st.ghost['gcds'] = st.ghost.get('gcds', ()) + ((a, b),)
    loc = Loc((fr.id, 't', node['id']), ())
    st.ghost['gcdmade'] = True
    if nonzero(st, a) or nonzero(st, b):
        v = app('gcd', tuple(sorted((a, b), key=repr)), 1, BIG)
    else:
        v = app('gcd', tuple(sorted((a, b), key=repr)), 0, BIG)
    st.mem[loc] = v
    return [(st, loc)]

def nonzero_div(ctx, alarms, fn):
    def h(eng, st, fr, node, a, b):
        ctx.obl += 1
        if nonzero(st, b): return
        w = zero_witness(st, b)
        if w == 'unknown': ctx.undec('%s: divisor at %s' % (fn['q'], node['l'] if node else '?'))
        elif w: alarms.append((fr, node, 'divides by %s, which can be zero, e.g. %s' % (b, w)))
    return h

def zero_witness(st, b):
    """None (cannot be zero), 'unknown', or a valuation for which the divisor is zero"""
    for val in terms.models(st, [b], [('==', b)], tries=3000, want=1):
        try:
            if val.ev(b) == 0: return {S.name[s]: v for s, v in val.asg.items()} or True
        except terms.Unknown: return 'unknown'
        except terms.Bad: continue
    return 'unknown' if b.imprecise() else None

def run(ctx):
    F = ctx.F
    NUM, DEN = FR + '::m_num', FR + '::m_den'
    rec = F.records.get(FR)
    if not rec: raise AnalysisBroken('fraction type not found')
    fl = [f['q'] for f in rec['fields'] if f['t'].endswith('BigInteger')]
    if len(fl) != 2: raise AnalysisBroken('fraction fields')
    NUM, DEN = fl if fl[0].endswith('num') or not fl[1].endswith('num') else fl[::-1]
    n = 0
    fns = [f for f in F.fns.values() if 'blocks' in f and (f.get('cls') == FR or (f['q'].startswith(NS) and any(strip_ref(p).replace('const ', '') == FR for p in f['p']) and not f.get('cls')))]
    for fn in sorted(fns, key=lambda f: (f['q'], f['p'])):
        if fn.get('access') == 'private' or fn.get('dtor') or fn.get('access') == 2: continue
        if fn.get('move'): continue      # a moved-from fraction may only be assigned or destroyed
        for alias in (False, True):
            for sb in (1, -1):
                n += one(ctx, F, fn, NUM, DEN, alias, sb)
    n += gcd_check(ctx, F)
    ctx.cov['configurations'] = n
    ctx.cov['functions_in_scope'] = len(fns)
    if n < 20: raise AnalysisBroken('only %d fraction configurations analysed' % n)

def one(ctx, F, fn, NUM, DEN, alias, sb):
    member = fn.get('cls') == FR
    st = State(); st.mem[STATUS] = C(CODES['SUCCESS'])
    fr_objs, args, ins = [], [], []
    def frac(L, s):
        nu, de = fresh('num'), (fresh('den', 1, BIG) if s > 0 else fresh('den', -BIG, -1))
        st.mem[Loc(L.base, (NUM,))] = nu; st.mem[Loc(L.base, (DEN,))] = de
        fr_objs.append(L); ins.extend((nu, de))
    k = 0; this = None; given = None
    if member:
        this = A
        if not fn.get('ctor'): frac(A, sb); k = 1
    for i, p in enumerate(fn['p']):
        t = strip_ref(p).replace('const ', '')
        if t == FR:
            L = (A, B)[k] if k < 2 else None
            if L is None: return 0
            if alias and k == 1 : L = A
            else: frac(L, sb if k == 0 else 1)
            k += 1
            args.append(L)
        elif t == BI:
            # an operand of the fraction itself may be passed as well (getNum / getDen return references)
            if alias and member and not fn.get('ctor') and 'Num' in fn['n']: args.append(Loc(A.base, (DEN,)))
            elif alias and member and not fn.get('ctor'): args.append(Loc(A.base, (NUM,)))
            else:
                L = Loc(('x', i), ()); v = fresh('x%d' % i); st.mem[L] = v; args.append(L)
                given = v
        elif is_ptr(p) and 'bool' in p:
            L = Loc(('ok',), ()); st.mem[L] = fresh('ok0', 0, 1); args.append(L if sb > 0 else ZERO)
        elif rng(p): args.append(fresh('n', *rng(p)))
        else: return 0
    if alias and k < 2 and not any(isinstance(a, Loc) and a.base == A.base for a in args): return 0
    al = []
    eng = ValEngine(F, 'bi')
    eng.table[NS + 'algo::gcd'] = gcd_intr
    eng.hooks['bigdivide'] = nonzero_div(ctx, al, fn)
    # the value that is asked to become a denominator
    cond = None
    if fn.get('ctor') and len([p for p in fn['p'] if BI in p]) == 2: cond = args[1]
    if fn['n'] == 'setDen': cond = args[0]
    if fn['n'] == 'reciprocal': cond = Loc(A.base, (NUM,))
    if fn['n'] == 'operator/' and not member: cond = Loc(args[1].base, (NUM,))
    if cond is not None: st.ghost['req'] = st.mem[cond]
    try: ex = eng.inline(st, None, fn, this, args, None)
    except Budget as e:
        ctx.undec('%s: %s' % (fn['q'], e)); return 0
    for fr, node, msg in al:
        ctx.alarm('fraction-divisor', fr.fn['file'], node['l'] if node else fr.fn['l'], fn['q'], msg, key='fraction-divisor|%s|%s' % (fn['q'], fr.fn['q']))
    for s, ret in ex:
        outs = [A] if member else []
        outs += [a for a in args if isinstance(a, Loc) and not a.path and Loc(a.base, (DEN,)) in s.mem]
        if isinstance(ret, Loc) and Loc(ret.base, ret.path + (DEN,)) in s.mem: outs.append(ret)
        for o in dict.fromkeys(outs):
            d = s.mem.get(Loc(o.base, o.path + (DEN,)))
            ctx.obl += 1
            if not isinstance(d, Poly):
                ctx.undec('%s: denominator of %s not tracked' % (fn['q'], o)); continue
            r = False if nonzero(s, d) else None
            ctx.sample('%s%s: denominator %s' % (fn['q'], sig(fn), d))
            if r is False: continue
            w = zero_witness(s, d)
            if w == 'unknown': ctx.undec('%s: denominator %s' % (fn['q'], d))
            elif w: ctx.alarm('fraction-zero-den', fn['file'], fn['l'], fn['q'] + sig(fn), 'leaves denominator %s, which can be zero, e.g. %s' % (d, w), key='fraction-zero-den|' + fn['q'])
        if cond is None: continue
        check_report(ctx, fn, s, args)
    return 1

def check_report(ctx, fn, s, args):
    """status and ok flag agree with whether the requested denominator was zero"""
    v = s.ghost['req']
    for zero in (True, False):
        conds = [[('==', v)]] if zero else [[('<=', ONE - v)], [('<=', v + ONE)]]
        for cs in conds:
            s2 = s.copy()
            s2.ghost['#v'] = v
            try:
                for c in cs: s2.assume(*c)
            except Infeasible: continue
            if not terms.satisfiable(s2, []): continue
            ctx.obl += 1
            stv = s2.mem.get(STATUS)
            okl = next((a for a in args if isinstance(a, Loc) and a.base == ('ok',)), None)
            exp = C(CODES['DIVBY0'] if zero else CODES['SUCCESS'])
            if zero or stv is not None:
                d = terms.differ(s2, stv, exp)
                if d == 'unknown': ctx.undec('%s: status' % fn['q'])
                elif d: ctx.alarm('fraction-report', fn['file'], fn['l'], fn['q'] + sig(fn), 'status is %s when the requested denominator is %s, e.g. %s' % (stv, 'zero' if zero else 'not zero', d['witness']), key='fraction-report|' + fn['q'])
            if okl is not None:
                ctx.obl += 1
                d = terms.differ(s2, s2.mem.get(okl), ZERO if zero else ONE)
                if d == 'unknown': ctx.undec('%s: ok' % fn['q'])
                elif d: ctx.alarm('fraction-report', fn['file'], fn['l'], fn['q'] + sig(fn), 'ok flag is %s when the requested denominator is %s' % (s2.mem.get(okl), 'zero' if zero else 'not zero'), key='fraction-report-ok|' + fn['q'])

def gcd_check(ctx, F):
    n = 0
    for fn in fn_by(F, NS + 'algo::gcd'):
        for lo in ((0, 1), (1, 0)):
            st = State(); st.mem[STATUS] = ZERO
            X, Y = Loc(('gx',), ()), Loc(('gy',), ())
            st.mem[X], st.mem[Y] = fresh('x', lo[0], BIG), fresh('y', lo[1], BIG)
            al = []
            eng = ValEngine(F, 'bi')
            eng.hooks['bigdivide'] = nonzero_div(ctx, al, fn)
            try: ex = eng.inline(st, None, fn, None, [X, Y], None)
            except Budget as e: ctx.undec('gcd: %s' % e); continue
            n += 1
            for fr, node, msg in al:
                ctx.alarm('gcd-divisor', fn['file'], node['l'] if node else fn['l'], fn['q'], msg, key='gcd-divisor')
            for s, r in ex:
                v = s.mem.get(r) if isinstance(r, Loc) else r
                ctx.obl += 1
                ctx.sample('gcd: result %s in %s' % (v, s.bounds(v) if isinstance(v, Poly) else '?'))
                if not isinstance(v, Poly): ctx.undec('gcd result'); continue
                if s.le0(ONE - v): continue
                w = zero_witness(s, v)
                if w == 'unknown': ctx.undec('gcd result %s' % v)
                elif w: ctx.alarm('gcd-zero', fn['file'], fn['l'], fn['q'], 'returns %s, zero for %s although one operand is positive' % (v, w), key='gcd-zero')
    return n
