"""P06: whenever the divisor is zero the division-by-zero status is set, and no division-by-zero status is set for a non-zero divisor; no
machine division whose divisor can be zero is executed.  The division family of the integer core is interpreted for every
combination of signs and word counts including zero divisors (hardware divisors are checked by the word-level interpreter);
every division operator of the C++ and the C interface is interpreted over the value-level model with a zero and with a
non-zero divisor; the fraction operations are those of P20."""
from corerun import *
from valmodel import *
import c_p07, c_p16, c_p17, c_p20

DIVOPS = {'operator/', 'operator%', 'operator/=', 'operator%='}
CDIV = {'pgbn_BigInteger_' + n + s for n in ('DivAssign', 'ModAssign') for s in ('', 'WithI64')}

def run(ctx):
    F = ctx.F
    run_core(ctx, want=lambda op: 'P06' in op.tags)
    n = m = 0
    P = field(F, BI, 'unique_ptr')
    if not P: raise AnalysisBroken('public integer type has no owning pointer to the core object')
    for fn in sorted(F.fns.values(), key=lambda f: (f['q'], f['p'])):
        if 'blocks' not in fn or not fn.get('ours'): continue
        if fn['n'] in DIVOPS and (fn.get('cls') == BI or fn['q'].startswith(NS + 'operator')) and any(c_p17.isbi(p) or rng(p) for p in fn['p']) and not any('Fraction' in p for p in fn['p']):
            for zero in (True, False):
                for alias in (False, True): n += layer(ctx, F, fn, P, zero, alias)
    HF = field(F, 'pgbn_BigInteger_t', 'BigIntegerImpl')
    for fn in sorted(F.fns.values(), key=lambda f: f['q']):
        if fn['q'] in CDIV and 'blocks' in fn:
            for zero in (True, False): m += layer(ctx, F, fn, HF, zero, False, True)
    sub = ctx.sub()
    c_p20.run(sub)
    c_p07.merge(ctx, sub, lambda a: a['rule'] in ('fraction-report', 'fraction-divisor', 'divide-by-zero'))
    ctx.cov['operator_configurations'] = n; ctx.cov['c_configurations'] = m
    if n < 16: raise AnalysisBroken('only %d division operator configurations analysed' % n)

def layer(ctx, F, fn, P, zero, alias, c=False):
    """one public division function; status after it for a zero or non-zero divisor"""
    member = fn.get('cls') == BI and not fn.get('static')
    st = State()
    X, Y = Loc(('X',), ()), Loc(('Y',), ())
    IX, IY = Loc(('implX',), ()), Loc(('implY',), ())
    a = fresh('a')
    b = ZERO if zero else fresh('b')
    st.mem[STATUS] = C(CODES['SUCCESS'])
    st.mem[Loc(X.base, (P,))] = IX; st.mem[IX] = a
    ps = fn['p']
    if len(ps) != (1 if member else 2): return 0
    args = []; bval = None
    isobj = lambda t: c_p17.isbi(t) or (c and is_ptr(t))
    for i, t in enumerate(ps):
        last = i == len(ps) - 1          # the divisor is the last operand
        if isobj(t) and not last: args.append(X)
        elif isobj(t):
            if alias:
                if not member and not isobj(ps[0]): return 0
                args.append(X); bval = a
            else:
                st.mem[Loc(Y.base, (P,))] = IY; st.mem[IY] = b; args.append(Y); bval = b
        elif rng(t):
            if alias: return 0
            v = ZERO if zero and last else fresh('n', *rng(t))
            args.append(v)
            if last: bval = v
        else: return 0
    if bval is None: return 0
    if alias:
        bval = a
        try: st.assume('==' if zero else '!=', a)
        except Infeasible: return 0
    elif not zero: st.assume('!=', bval)
    eng = ValEngine(F, 'impl')
    try: ex = eng.inline(st, None, fn, X if member else None, args, None)
    except Budget as e:
        ctx.undec('%s: %s' % (fn['q'], e)); return 1
    ctx.count('exit_states', len(ex))
    for al in eng.alarms.values():
        ctx.alarm(al['rule'], al['file'], al['line'], fn['q'] + sig(fn), al['msg'])
    for s, ret in ex:
        ctx.obl += 1
        got, exp = s.mem.get(STATUS), C(CODES['DIVBY0'] if zero else CODES['SUCCESS'])
        if got is None: ctx.undec('%s: status not tracked' % fn['q']); continue
        d = terms.differ(s, got, exp)
        if d == 'unknown': ctx.undec('%s: status %s' % (fn['q'], got))
        elif d: ctx.alarm('division-status', fn['file'], fn['l'], fn['q'] + sig(fn), 'with a %s divisor%s the status is %s, e.g. %s' % (
            'zero' if zero else 'non-zero', ' (operands aliased)' if alias else '', got, d['witness']), key='division-status|%s|%s' % (fn['q'] + sig(fn), zero))
        ctx.sample('%s with a %s divisor: status %s' % (fn['q'] + sig(fn), 'zero' if zero else 'non-zero', got))
    return 1
