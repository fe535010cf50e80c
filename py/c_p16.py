"""P16: every C function performs exactly the core operation its name states."""
from common import *
from valmodel import *

A, B = Loc(('A',), ()), Loc(('B',), ())
IA, IB = Loc(('implA',), ()), Loc(('implB',), ())
OK = Loc(('ok',), ())
OUT = Loc(('outbuf',), ())
TXT = Loc(('text',), (ZERO,))

LIMIT = {}    # C conversion -> the constants the corresponding C++ conversion returns below and above its range

def limits(ctx):
    F = ctx.F
    from valmodel import BI
    pf = field(F, BI, 'unique_ptr')
    for name, q, lo, hi in (('GetInt64', 'getInt64', -2**63, 2**63 - 1), ('GetUInt64', 'getUInt64', 0, 2**64 - 1)):
        fs = fn_by(F, BI + '::' + q, lambda f: len(f['p']) == 1)
        if not fs or not pf: continue
        r = []
        for side in (0, 1):
            st = State(); a = fresh('a')
            st.mem[Loc(A.base, (pf,))] = IA; st.mem[IA] = a
            try:
                st.assume('<=', a - C(lo - 1) if side == 0 else C(hi + 1) - a)
                ex = ValEngine(F, 'impl').inline(st, None, fs[0], A, [ZERO], None)
                vs = {v.const() if isinstance(v, Poly) else None for _, v in ex}
            except (Budget, Infeasible): vs = {None}
            r.append(C(vs.pop()) if len(vs) == 1 and None not in vs else None)
        LIMIT[name] = r

def spec(P):
    """C function -> builder(args) returning list of cases (conds, outcome)"""
    a, b = P['a'], P['b']
    T = {}
    def unary(name, v): T['pgbn_BigInteger_' + name] = ('A', lambda x: [([], dict(a=v))])
    unary('Inc', a + ONE); unary('Dec', a - ONE); unary('NotSelf', C(-1) - a); unary('Negate', -a)
    T['pgbn_BigInteger_AbsSelf'] = ('A', lambda x: [([('<=', -a)], dict(a=a)), ([('<=', a + ONE)], dict(a=-a))])
    unary('NotSelfBits', app('notbits', (a,)))
    ops = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y, 'Div': tdivp, 'Mod': tmodp,
           'And': lambda x, y: commut('and', x, y), 'Or': lambda x, y: commut('or', x, y), 'Xor': lambda x, y: commut('xor', x, y)}
    for n, f in ops.items():
        T['pgbn_BigInteger_%sAssign' % n] = ('AB', lambda x, f=f: [([], dict(a=f(a, b)))])
        T['pgbn_BigInteger_%sAssignWithI64' % n] = ('AI', lambda x, f=f: [([], dict(a=f(a, x[1])))])
    T['pgbn_BigInteger_SHLAssignWithI64'] = ('AN', lambda x: [([], dict(a=a * pow2(None, x[1])))])
    T['pgbn_BigInteger_SHRAssignWithI64'] = ('AN', lambda x: [([], dict(a=shrp(a, x[1])))])
    def preds(name, yes, nos):
        T['pgbn_BigInteger_' + name] = ('A', lambda x: [([yes], dict(ret=ONE))] + [([n], dict(ret=ZERO)) for n in nos])
    preds('IsZero', ('==', a), [('<=', ONE - a), ('<=', a + ONE)])
    preds('IsOne', ('==', a - ONE), [('<=', C(2) - a), ('<=', a)])
    preds('IsNegOne', ('==', a + ONE), [('<=', -a), ('<=', a + C(2))])
    preds('IsPositive', ('<=', ONE - a), [('<=', a)])
    preds('IsNegative', ('<=', a + ONE), [('<=', -a)])
    odd = a - app('div', (a, C(2))) * 2
    preds('IsEven', ('==', odd), [('==', odd - ONE)])
    preds('IsOdd', ('==', odd - ONE), [('==', odd)])
    def cmps(name, sh, other):
        T['pgbn_BigInteger_' + name] = (sh, lambda x: [([('<=', a - other(x) + ONE)], dict(ret=C(-1))), ([('==', a - other(x))], dict(ret=ZERO)),
                                                       ([('<=', ONE - a + other(x))], dict(ret=ONE))])
    cmps('Cmp', 'AB', lambda x: b)
    cmps('CmpWithI64', 'AI', lambda x: x[1])
    def conv(name, lo, hi, chk):
        ov, su = C(CODES['ARITHMETIC_OVERFLOW']), C(CODES['SUCCESS'])
        fit = [('<=', C(lo) - a), ('<=', a - C(hi))]
        def cases(x):
            okin = {'ok': ONE} if chk and x[1] == OK else {}
            oko = {'ok': ZERO} if chk and x[1] == OK else {}
            rl, rh = [dict(ret=v) if v is not None else {} for v in LIMIT.get(name.replace('WithChecking', ''), (None, None))]
            return [(fit, dict(ret=a, status=su, **okin)), ([('<=', a - C(lo - 1))], dict(status=ov, **oko, **rl)),
                    ([('<=', C(hi + 1) - a)], dict(status=ov, **oko, **rh))]
        T['pgbn_BigInteger_' + name] = ('AO' if chk else 'A', cases)
    conv('GetInt64', -2**63, 2**63 - 1, False); conv('GetInt64WithChecking', -2**63, 2**63 - 1, True)
    conv('GetUInt64', 0, 2**64 - 1, False); conv('GetUInt64WithChecking', 0, 2**64 - 1, True)
    T['pgbn_BigInteger_Get2sComplementBlock'] = ('AU', lambda x: [([], dict(ret=app('u32', (a, x[1]), 0, 2**32 - 1)))])
    T['pgbn_BigInteger_Copy'] = ('AB', lambda x: [([], dict(a=b))])
    T['pgbn_BigInteger_AssignWithI64'] = ('AI', lambda x: [([], dict(a=x[1]))])
    txt = Opq('text', (Loc(TXT.base, ()),))
    def parse(x): return (txt, x[-1])
    T['pgbn_BigInteger_AssignWithStr'] = ('ATR', lambda x: [([('==', app('parseok', parse(x), 0, 1) - ONE)], dict(ret=ONE, a=app('parse', parse(x)))),
                                                            ([('==', app('parseok', parse(x), 0, 1))], dict(ret=ZERO))])
    T['pgbn_BigInteger_AssignWithBin'] = ('APLb', lambda x: [([], dict(a=app('bin', (x[1], x[2], x[3]))))])
    T['pgbn_BigInteger_ToString'] = ('AR', lambda x: [([], dict(newstr=Opq('str', (a, x[1]))))])
    T['pgbn_BigInteger_GetMagData'] = ('AQL', lambda x: [([], dict(ret=app('maglen', (a, x[2]), 0, 2**64 - 1), magcopy=Opq('magcopy', (a, x[1], x[2]))))])
    T['pgbn_BigInteger_Create'] = ('', lambda x: [([], dict(newint=ZERO))])
    T['pgbn_BigInteger_CreateWithCopying'] = ('A', lambda x: [([], dict(newint=a))])
    T['pgbn_BigInteger_CreateWithI64'] = ('I', lambda x: [([], dict(newint=x[0]))])
    T['pgbn_BigInteger_CreateWithStr'] = ('TR', lambda x: [([('==', app('parseok', parse(x), 0, 1) - ONE)], dict(newint=app('parse', parse(x)))),
                                                           ([('==', app('parseok', parse(x), 0, 1))], dict(ret=ZERO))])
    T['pgbn_BigInteger_CreateWithBin'] = ('LPb', lambda x: [([], dict(newint=app('bin', (x[1], x[0], x[2]))))])
    T['pgbn_BigInteger_Destroy'] = ('A', lambda x: [([], dict(freed={A, IA}))])
    # strings and status
    T['pgbn_String_Create'] = ('T', lambda x: [([], dict(newstr=txt))])
    sv = Opq(('mem', 'strval'), ())
    T['pgbn_String_CStr'] = ('S', lambda x: [([], dict(ret=Opq('cstr', (sv,))))])
    T['pgbn_String_Length'] = ('S', lambda x: [([], dict(ret=app('strlen', (sv,), 0, 2**62)))])
    T['pgbn_String_Destroy'] = ('S', lambda x: [([], dict(freed={A}))])
    T['pgbn_Status_Register'] = ('ET', lambda x: [([], dict(registe=Opq('registe', (x[0], Opq('strlike', (txt,))))))])
    T['pgbn_Status_SetErrno'] = ('XE', lambda x: [([], dict(st=x[1]))])
    T['pgbn_Status_GetInfo'] = ('X', lambda x: [([], dict(ret=Opq('cstr', (Opq('getinfo', (P['s'],)),))))])
    T['pgbn_Status_GetInfoByErrno'] = ('E', lambda x: [([], dict(ret=Opq('cstr', (Opq('getinfo', (x[0],)),))))])
    T['pgbn_Status_Create'] = ('', lambda x: [([], dict(newst=ZERO))])
    T['pgbn_Status_CreateWithErrno'] = ('E', lambda x: [([], dict(newst=x[0]))])
    T['pgbn_Status_Destroy'] = ('X', lambda x: [([], dict(freed={A, IA}))])
    T['pgbn_Status_GetGlobalInstance'] = ('', lambda x: [([], dict(globst=True))])
    return T

INTR = {'I': 'int64', 'N': 'int64>=0'}

def params(shape, k):
    out = []
    for ch in shape:
        if ch == 'A': out.append(A)
        elif ch in 'SX': out.append(A)
        elif ch == 'B': out.append(B)
        elif ch == 'I': out.append(fresh('i64', -2**63, 2**63 - 1))
        elif ch == 'N': out.append(fresh('n', 0, 2**63 - 1))
        elif ch == 'U': out.append(fresh('idx', 0, 2**64 - 1))
        elif ch == 'L': out.append(fresh('len', 0, 2**64 - 1))
        elif ch == 'O': out.append(OK if k == 0 else ZERO)
        elif ch == 'T': out.append(TXT)
        elif ch == 'R': out.append(fresh('radix', -2**31, 2**31 - 1))
        elif ch == 'P': out.append(Loc(('src',), (ZERO,)))
        elif ch == 'Q': out.append(Loc(('dst',), (ZERO,)))
        elif ch == 'b': out.append(fresh('little', 0, 1))
        elif ch == 'E': out.append(fresh('code', 0, 2**32 - 1))
    return out

def known(tag):
    return False

def run(ctx, only=None):
    F = ctx.F
    limits(ctx)
    H_IMPL = field(F, 'pgbn_BigInteger_t', 'BigIntegerImpl')
    S_STR = field(F, 'pgbn_String_t', 'basic_string')
    S_ST = field(F, 'pgbn_Status_t', 'Status')
    if not (H_IMPL and S_STR and S_ST):
        raise AnalysisBroken('C handle records not found')
    cfns = {f['q']: f for f in F.fns.values() if f['q'].startswith('pgbn_') and 'blocks' in f and f.get('ours') and '::' not in f['q']}
    decls = [f for f in F.fns.values() if f['q'].startswith('pgbn_') and '::' not in f['q']]
    names = set(spec(dict(a=fresh('a'), b=fresh('b'), s=fresh('s'))))
    missing = names - set(cfns)
    if len(missing) > 3:
        raise AnalysisBroken('C interface functions not found: %s' % sorted(missing)[:5])
    nf = 0
    for name in sorted(names & set(cfns)):
        fn = cfns[name]
        if only and not only(name): continue
        done = False
        for k in (0, 1):
            shape = None
            for alias in ((False, True) if True else (False,)):
                va, vb, vs = fresh('a'), fresh('b'), fresh('code0', 0, 2**32 - 1)
                if alias: vb = va
                sp = spec(dict(a=va, b=vb, s=vs))[name]
                shape, cases = sp
                if k == 1 and 'O' not in shape: continue
                if alias and 'B' not in shape: continue
                args = params(shape, k)
                if len(args) != len(fn['params']):
                    ctx.undec(name + ': signature'); continue
                st = State()
                if 'A' in shape:
                    st.mem[Loc(A.base, (H_IMPL,))] = IA; st.mem[IA] = va
                if 'B' in shape:
                    if alias: args = [A if x == B else x for x in args]
                    else: st.mem[Loc(B.base, (H_IMPL,))] = IB; st.mem[IB] = vb
                if 'S' in shape: st.mem[Loc(A.base, (S_STR,))] = Opq(('mem', 'strval'), ())
                if 'X' in shape: st.mem[Loc(A.base, (S_ST,))] = IA; st.mem[IA] = vs
                if 'O' in shape and args[1] == OK: st.mem[OK] = fresh('ok0', 0, 1)
                st.mem[STATUS] = fresh('status0', 0, 2**32 - 1)
                st.ghost['in'] = tuple(args) + (va, vb, vs)
                eng = ValEngine(F, 'impl')
                alarm_before = len(ctx.alarms)
                check(ctx, eng, fn, st, args, cases, alias, H_IMPL, S_STR, S_ST, 'X' in shape)
                ctx.count('configurations')
                done = True
        if done: nf += 1
    ctx.cov['functions_analysed'] = nf
    ctx.cov['declared_interface'] = len(decls)
    if only is None and nf < 50:
        raise AnalysisBroken('only %d C functions analysed' % nf)

def check(ctx, eng, fn, st, args, cases, alias, H_IMPL, S_STR, S_ST, isst):
    name = fn['q']
    # expected outcomes travel in the state so that refinements apply to them
    cs = cases(args)
    st.ghost['exp'] = tuple((tuple((op, p) for op, p in conds), tuple(sorted(((k, v) for k, v in o.items() if k not in ('freed', 'globst')), key=repr))) for conds, o in cs)
    flags = [{k: v for k, v in o.items() if k in ('freed', 'globst')} for _, o in cs]
    try:
        exits = eng.inline(st, None, fn, None, args, None)
    except Budget as e:
        ctx.undec('%s: %s' % (name, e)); return
    ctx.count('exit_states', len(exits))
    for s, ret in exits:
        for (conds, out), fl in zip(s.ghost['exp'], flags):
            out = dict(out)
            dead = False
            s2 = s.copy()
            s2.ghost['#o'] = tuple(sorted(out.items(), key=repr)); s2.ghost['#r'] = ret
            try:
                for op, p in conds: s2.assume(op, p)
            except Infeasible:
                continue
            out = dict(s2.ghost['#o']); r2 = s2.ghost['#r']
            ins = s2.ghost['in']
            va, vb, vs = ins[-3:]
            comps = []
            if 'ret' in out: comps.append(('returned value', r2, out['ret']))
            if not isst and IA in s2.mem or 'a' in out:
                if not (fl.get('freed')):
                    comps.append(('value of the first operand', s2.mem.get(IA), out.get('a', va)))
            if IB in s2.mem: comps.append(('value of the second operand', s2.mem.get(IB), vb))
            if isst and not fl.get('freed'): comps.append(('status code', s2.mem.get(IA), out.get('st', vs)))
            if 'ok' in out: comps.append(('ok flag', s2.mem.get(OK), out['ok']))
            if 'status' in out: comps.append(('global status', s2.mem.get(STATUS), out['status']))
            if 'magcopy' in out: comps.append(('copied words', s2.ghost.get('magcopy'), out['magcopy']))
            for key, fld in (('newint', H_IMPL), ('newst', S_ST)):
                if key in out:
                    o = s2.mem.get(Loc(r2.base, r2.path + (fld,))) if isinstance(r2, Loc) else None
                    comps.append(('value of the created object', s2.mem.get(o) if isinstance(o, Loc) else (ZERO if isinstance(r2, Poly) else None), out[key]))
            if 'newstr' in out:
                o = s2.mem.get(Loc(r2.base, r2.path + (S_STR,))) if isinstance(r2, Loc) else None
                if isinstance(o, Opq) and o.tag == 'text' : pass
                comps.append(('text of the created string', o, out['newstr']))
            if 'registe' in out:
                g = s2.ghost.get('registe', ())
                ctx.obl += 1
                if len(g) != 1 or g[0].args[:1] != out['registe'].args[:1]:
                    ctx.alarm('c-delegation', fn['file'], fn['l'], name, 'does not register exactly the given code', key='c-delegation|' + name)
            if fl.get('freed'):
                ctx.obl += 1
                fr = s2.ghost.get('freed', frozenset())
                if not fr >= fl['freed']:
                    ctx.alarm('c-delegation', fn['file'], fn['l'], name, 'does not release %s' % sorted(map(str, fl['freed'] - fr)), key='c-delegation|' + name)
            if fl.get('globst'):
                ctx.obl += 1
                o = s2.mem.get(Loc(r2.base, r2.path + (S_ST,))) if isinstance(r2, Loc) else None
                if isinstance(o, Loc) and o != STATUS:
                    ctx.alarm('c-delegation', fn['file'], fn['l'], name, 'global handle does not designate the global status', key='c-delegation|' + name)
            for what, got, exp in comps:
                ctx.obl += 1
                if got is None:
                    ctx.undec('%s: %s not tracked' % (name, what)); continue
                if what.startswith('value of the created') and isinstance(r2, Poly) and r2 == ZERO and eng_sat(s2):
                    ctx.alarm('c-delegation', fn['file'], fn['l'], name, 'returns a null handle where a new object is expected', key='c-delegation|' + name)
                    continue
                d = terms.differ(s2, got, exp, known=known)
                if d == 'unknown': ctx.undec('%s: %s' % (name, what))
                elif d: ctx.alarm('c-delegation', fn['file'], s2.ghost.get('retline') or fn['l'], name,
                                  '%s is %s, expected %s%s; e.g. %s' % (what, got, exp, ' (operands aliased)' if alias else '', d['witness']), key='c-delegation|%s|%s' % (name, what))
            ctx.sample('%s%s: %s' % (name, ' [aliased]' if alias else '', ', '.join('%s = %s' % (w, g) for w, g, _ in comps)))
    for a in eng.alarms.values():
        ctx.alarm(a['rule'], a['file'], a['line'], name, a['msg'])

def eng_sat(s):
    return terms.satisfiable(s, [])
