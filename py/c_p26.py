"""P26: fraction operations denote the exact rational result in lowest terms.  Each public operation on fractions is interpreted over the
value-level model of the integers; the numerator and denominator it leaves are compared, as terms, with the rational number
its name denotes (cross-multiplied), and their reduction by one common greatest divisor is required."""
from common import *
from valmodel import *
import c_p20
from c_p20 import FR, A, B

def run(ctx):
    F = ctx.F
    rec = F.records.get(FR)
    if not rec: raise AnalysisBroken('fraction type not found')
    fl = [f['q'] for f in rec['fields'] if f['t'].endswith('BigInteger')]
    if len(fl) != 2: raise AnalysisBroken('fraction fields')
    NUM, DEN = fl if fl[0].endswith('num') or not fl[1].endswith('num') else fl[::-1]
    n = 0
    for fn in sorted(F.fns.values(), key=lambda f: f['id']):
        if 'blocks' not in fn or fn.get('dtor') or fn.get('access') == 'private' or fn.get('move'): continue
        isop = fn['q'].startswith(NS + 'experimental::operator') and len(fn['p']) == 2
        if not isop and fn.get('cls') != FR: continue
        for alias in (False, True):
            n += one(ctx, F, fn, NUM, DEN, isop, alias)
    ctx.cov['configurations'] = n
    if n < 10: raise AnalysisBroken('fraction operations not found')

def one(ctx, F, fn, NUM, DEN, isop, alias):
    st = State(); st.mem[STATUS] = ZERO
    def frac(L, sfx):
        nu, de = fresh('num' + sfx), fresh('den' + sfx)
        st.mem[Loc(L.base, (NUM,))] = nu; st.mem[Loc(L.base, (DEN,))] = de
        st.neq = st.neq | {de}
        return nu, de
    this, args, exp = None, [], None
    if isop:
        a, b = frac(A, '1')
        c, d = (a, b) if alias else frac(B, '2')
        args = [A, A if alias else B]
        o = fn['n'][-1]
        ex = {'+': (a * d + c * b, b * d), '-': (a * d - c * b, b * d), '*': (a * c, b * d), '/': (a * d, b * c)}.get(o)
        if not ex: return 0
        cond = c if o == '/' else None
        target = 'ret'
    else:
        q = fn['n']
        this = A
        x = lambda i: Loc(('x', i), ())
        cond = None
        if fn.get('ctor'):
            if alias or len(fn['p']) < 2: return 0
            vals = []
            for i, p in enumerate(fn['p']):
                if BI in p: st.mem[x(i)] = fresh('x%d' % i); args.append(x(i)); vals.append(st.mem[x(i)])
                else: args.append(ZERO)
            if len(vals) != 2: return 0
            ex = tuple(vals); cond = vals[1]; target = 'this'
        else:
            a, b = frac(A, '1')
            if q == 'setNum':
                if alias: args = [Loc(A.base, (DEN,))]; ex = (b, b)
                else: st.mem[x(0)] = v = fresh('x0'); args = [x(0)]; ex = (v, b)
                target = 'this'
            elif q == 'setDen':
                if alias: args = [Loc(A.base, (NUM,)), ZERO]; ex = (a, a); cond = a
                else: st.mem[x(0)] = v = fresh('x0'); args = [x(0), ZERO]; ex = (a, v); cond = v
                args = args[:len(fn['p'])]
                target = 'this'
            elif q == 'reciprocal' and not alias:
                args = [ZERO] * len(fn['p']); ex = (b, a); cond = a; target = 'ret'
            else: return 0
    eng = ValEngine(F, 'bi')
    eng.table[NS + 'algo::gcd'] = c_p20.gcd_intr
    if cond is not None: st.neq = st.neq | {cond}
    st.ghost['ex'] = ex
    try: exits = eng.inline(st, None, fn, this, args, None)
    except Budget as e: ctx.undec('%s: %s' % (fn['q'], e)); return 0
    for s, ret in exits:
        L = A if target == 'this' else ret
        if not isinstance(L, Loc): ctx.undec(fn['q'] + ': result'); continue
        nu, de = s.mem.get(Loc(L.base, L.path + (NUM,))), s.mem.get(Loc(L.base, L.path + (DEN,)))
        en, ed = s.ghost['ex']
        if not (isinstance(nu, Poly) and isinstance(de, Poly)): ctx.undec(fn['q'] + ': parts'); continue
        ctx.obl += 2
        ctx.sample('%s%s%s: %s / %s' % (fn['q'], sig(fn), ' [aliased]' if alias else '', nu, de))
        g = reduced(nu, de)
        if g:
            N, D = g
            if N * ed == en * D: continue
        d = terms.differ(s, nu * ed, en * de)
        if d == 'unknown': ctx.undec('%s: value' % fn['q'])
        elif d: ctx.alarm('fraction-value', fn['file'], fn['l'], fn['q'] + sig(fn), 'result %s / %s is not %s / %s%s, e.g. %s' % (nu, de, en, ed, ' (operands aliased)' if alias else '', d['witness']), key='fraction-value|' + fn['q'])
        if not g and not d:
            d = terms.differ(s, app('gcd', (nu, de), 0, BIG), ONE)
            if d == 'unknown': ctx.undec('%s: reduction' % fn['q'])
            elif d and fn['n'] != 'reciprocal': ctx.alarm('fraction-reduced', fn['file'], fn['l'], fn['q'] + sig(fn), 'result %s / %s is not in lowest terms, e.g. %s' % (nu, de, d['witness']), key='fraction-reduced|' + fn['q'])
    return 1

def reduced(nu, de):
    """(N, D) when nu = N / g, de = D / g with the same g = gcd(|N|, |D|)"""
    def part(p):
        ss = list(p.syms())
        if len(ss) == 1 and p == V(ss[0]) and S.df[ss[0]] and S.df[ss[0]][0] == 'tdiv': return S.df[ss[0]][1]
        return None
    a, b = part(nu), part(de)
    if not a or not b or a[1] != b[1]: return None
    gs = list(a[1].syms())
    if len(gs) != 1 or a[1] != V(gs[0]) or not S.df[gs[0]] or S.df[gs[0]][0] != 'gcd': return None
    args = S.df[gs[0]][1]
    for x, y in ((args[0], args[1]), (args[1], args[0])):
        if (x in (a[0], -a[0]) or is_abs_of(x, a[0])) and (y in (b[0], -b[0]) or is_abs_of(y, b[0])): return a[0], b[0]
    return None
