"""P17: every operator, comparison and named member of the public integer type applies the core operation it denotes to its operands in the
written order and returns the documented object.  Every function is interpreted abstractly over the value-level model of the core
(one polynomial per integer object), for distinct and for aliased operands, and the resulting abstract values are compared with
the mathematical meaning of its name."""
from common import *
from valmodel import *

X, Y, NEW = Loc(('X',), ()), Loc(('Y',), ()), Loc(('N',), ())
IX, IY = Loc(('implX',), ()), Loc(('implY',), ())
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': tdivp, '%': tmodp,
       '&': lambda a, b: commut('and', a, b), '|': lambda a, b: commut('or', a, b), '^': lambda a, b: commut('xor', a, b),
       '<<': lambda a, b: a * pow2(None, b), '>>': shrp}
def three(d, f): return [([('<=', d + ONE)], dict(prim=C(f(-1)))), ([('==', d)], dict(prim=C(f(0)))), ([('<=', ONE - d)], dict(prim=C(f(1))))]
REL = {'==': lambda c: int(c == 0), '!=': lambda c: int(c != 0), '<': lambda c: int(c < 0), '<=': lambda c: int(c <= 0),
       '>': lambda c: int(c > 0), '>=': lambda c: int(c >= 0)}

def run(ctx):
    F = ctx.F
    P = field(F, BI, 'unique_ptr')
    if not P: raise AnalysisBroken('public integer type has no owning pointer to the core object')
    fns = [f for f in F.fns.values() if 'blocks' in f and f.get('ours') and
           (f.get('cls') == BI or (f['q'].startswith(NS + 'operator') and any(strip_ref(p).replace('const ', '') == BI for p in f['p'])))]
    n = 0
    for fn in sorted(fns, key=lambda f: (f['q'], f['p'])):
        for alias in (False, True):
            if one(ctx, F, fn, P, alias): n += 1
        if any(is_ptr(t) and 'bool' in t for t in fn['p']): one(ctx, F, fn, P, False, False)
    ctx.cov['configurations'] = n
    ctx.cov['functions_in_scope'] = len(fns)
    if n < 90: raise AnalysisBroken('only %d operator configurations analysed' % n)

def isbi(t): return strip_ref(t).replace('const ', '').strip() == BI

def one(ctx, F, fn, P, alias, okptr=True):
    q = fn['n']; ps = fn['p']; member = fn.get('cls') == BI and not fn.get('static')
    bis = [i for i, t in enumerate(ps) if isbi(t)]
    va, vb = fresh('a'), fresh('b')
    st = State()
    st.mem[STATUS] = fresh('status0', 0, 2**32 - 1)
    objs = ([X] if member and not fn.get('ctor') else []) 
    args, vals = [], []
    pool = [(X, IX, va), (Y, IY, vb)]
    k = 0
    if member and not fn.get('ctor'): k = 1
    if alias and (len(bis) + k) < 2: return False
    def obj(i):
        if alias: i = 0
        L, I, v = pool[i]
        st.mem[Loc(L.base, (P,))] = I; st.mem[I] = v
        return L, v
    tv = None
    if member and not fn.get('ctor'): _, tv = obj(0)
    for t in ps:
        if isbi(t):
            if k > 1: return False
            L, v = obj(k); k += 1
            args.append(L); vals.append(v)
        elif rng(t):
            lo, hi = rng(t)
            if q in ('operator<<', 'operator>>', 'operator<<=', 'operator>>='): lo, hi = 0, 2**63 - 1
            v = fresh('n', lo, hi); args.append(v); vals.append(v)
        elif 'string_view' in t:
            L = Loc(('str',), ()); st.mem[L] = Opq('sv', (Opq('text0', ()),)); args.append(L); vals.append(Opq('text0', ()))
        elif is_ref(t) and rng(strip_ref(t)):
            L = Loc(('out',), ()); st.mem[L] = fresh('out0', *rng(strip_ref(t))); args.append(L); vals.append(None)
        elif is_ptr(t) and 'bool' in t:
            L = Loc(('ok',), ())
            if okptr: st.mem[L] = fresh('ok0', 0, 1)
            args.append(L if okptr else ZERO); vals.append(None)
        elif is_ptr(t):
            L = Loc(('bin',), (ZERO,)); args.append(L); vals.append(L)
        elif is_ref(t) and 'unique_ptr' in t:
            L = Loc(('up',), ()); st.mem[L] = IY; st.mem[IY] = vb; args.append(L); vals.append(vb)
        else: return False
    cases = meaning(F, fn, q, tv, vals, member, ps)
    if cases is None: return False
    if callable(cases): cases = cases(args)
    this = (NEW if fn.get('ctor') else X) if member else None
    ins = (va, vb, tuple(v for v in vals))
    ret_ref = is_ref(fn['r'])
    def comps(s, ret, out, inv):
        va, vb, vv = inv
        c = []
        def val(L):
            if not isinstance(L, Loc): return None
            o = s.mem.get(Loc(L.base, L.path + (P,)))
            return s.mem.get(o) if isinstance(o, Loc) else None
        moved = any(p.rstrip().endswith('&&') for p in fn['p'])
        if (member and 'this' in out): c.append(('value of the target', val(this), out['this']))
        elif member and not fn.get('ctor'): c.append(('value of the object', val(X), va))
        elif k > 0 and not member: c.append(('value of the left operand', val(X), va))
        if fn.get('ctor') and bis and not moved: c.append(('value of the source', val(X), va))
        if not alias and Loc(Y.base, (P,)) in s.mem and not moved: c.append(('value of the right operand', val(Y), vb))
        if 'ret' in out:
            if out['ret'] == 'this':
                c.append(('returned object', ret, X))
            else:
                c.append(('returned value', val(ret) if isinstance(ret, Loc) else None, out['ret']))
                if isinstance(ret, Loc): 
                    c.append(('returned object aliases an operand', C(int(s.mem.get(Loc(ret.base, ret.path + (P,))) in (IX, IY))), ZERO))
        if 'prim' in out: c.append(('returned value', ret, out['prim']))
        if 'str' in out:
            c.append(('returned text', s.mem.get(ret) if isinstance(ret, Loc) else ret, out['str']))
        if 'ok' in out and 'pok' in out: pass
        for nm in ('ok', 'out'):
            if nm in out and Loc((nm,), ()) in s.mem: c.append(('ok flag' if nm == 'ok' else 'output', s.mem.get(Loc((nm,), ())), out[nm]))
        if 'status' in out: c.append(('global status', s.mem.get(STATUS), out['status']))
        # independence: a new object must own its own core object
        if member and fn.get('ctor') and bis and not moved:
            c.append(('core object shared with the source', C(int(s.mem.get(Loc(this.base, (P,))) in (IX, IY))), ZERO))
        return c
    eng = ValEngine(F, 'impl')
    r = run_cases(ctx, eng, fn, st, this, args, ins, cases, comps, 'operator-meaning', ' (operands aliased)' if alias else '')
    return bool(r)

def meaning(F, fn, q, a, vals, member, ps):
    E = lambda **kw: [([], kw)]
    two = len(ps) == 2
    if fn.get('dtor'): return None
    if fn.get('ctor'):
        if not ps: return E(this=ZERO)
        if len(ps) == 1 and (isbi(ps[0]) or rng(ps[0]) or 'unique_ptr' in ps[0]): return E(this=vals[0])
        if 'string_view' in ps[0]:
            key = (vals[0], vals[1]); ok = app('parseok', key, 0, 1)
            return [([('==', ok - ONE)], dict(this=app('parse', key), ok=ONE, status=C(CODES['SUCCESS']))), ([('==', ok)], dict(ok=ZERO))]
        if len(ps) == 3: return E(this=app('bin', (vals[1], vals[0], vals[2])))
        return None
    if q.startswith('operator'):
        o = q[8:]
        if not member:
            if two and o in BIN: return E(ret=BIN[o](vals[0], vals[1]))
            if two and o in REL: return three(vals[0] - vals[1], REL[o])
            return None
        if o.endswith('=') and o[:-1] in BIN and len(ps) == 1:
            return E(this=BIN[o[:-1]](a, vals[0]), ret='this')
        if o == '=' and len(ps) == 1 and vals[0] is not None: return E(this=vals[0], ret='this')
        if o in ('++', '--'):
            d = ONE if o == '++' else C(-1)
            return E(this=a + d, ret='this') if not ps else E(this=a + d, ret=a)
        if not ps:
            if o == '~': return E(ret=C(-1) - a)
            if o == '-': return E(ret=-a)
            if o == '+': return E(ret=a)
        return None
    if not member: return None
    pos = [('<=', -a)]; neg = [('<=', a + ONE)]
    if q == 'assign' and len(ps) == 1 and rng(ps[0]): return E(this=vals[0], ret='this')
    if q == 'assign' and 'string_view' in ps[0]:
        key = (vals[0], vals[1]); ok = app('parseok', key, 0, 1)
        return [([('==', ok - ONE)], dict(this=app('parse', key), ok=ONE, ret='this', status=C(CODES['SUCCESS']))), ([('==', ok)], dict(ok=ZERO, this=a, ret='this'))]
    if q == 'fromBinary': return E(this=app('bin', (vals[0], vals[1], vals[2])), ret='this')
    if q == 'get2sComplement': return E(prim=app('u32', (a, vals[0]), 0, 2**32 - 1))
    if q == 'toString': return E(str=Opq('str', (a, vals[0])))
    if q == 'copyMagDataTo': return E(prim=app('maglen', (a, vals[1]), 0, 2**64 - 1))
    odd = a - app('div', (a, C(2))) * 2
    P = {'isZero': (('==', a), [('<=', ONE - a), ('<=', a + ONE)]), 'isOne': (('==', a - ONE), [('<=', C(2) - a), ('<=', a)]),
         'isNegOne': (('==', a + ONE), [('<=', -a), ('<=', a + C(2))]), 'isPositive': (('<=', ONE - a), [('<=', a)]),
         'isNegative': (('<=', a + ONE), [('<=', -a)]), 'isEven': (('==', odd), [('==', odd - ONE)]), 'isOdd': (('==', odd - ONE), [('==', odd)])}
    if q in P: return [([P[q][0]], dict(prim=ONE))] + [([c], dict(prim=ZERO)) for c in P[q][1]]
    if q == 'cmp': return three(a - vals[0], lambda c: c)
    if q == 'negated': return E(ret=-a)
    if q == 'negate': return E(this=-a, ret='this')
    if q == 'abs': return [(pos, dict(this=a, ret='this')), (neg, dict(this=-a, ret='this'))]
    if q == 'absoluted': return [(pos, dict(ret=a)), (neg, dict(ret=-a))]
    if q == 'notSelf': return E(this=C(-1) - a, ret='this')
    if q == 'notBits': return E(this=app('notbits', (a,)), ret='this')
    if q.startswith('as'):
        r = fn['r']
        if r == 'bool': return [([('==', a)], dict(prim=ZERO)), ([('<=', ONE - a)], dict(prim=ONE)), ([('<=', a + ONE)], dict(prim=ONE))]
        if rng(r):
            lo, hi = rng(r)
            low = a - app('div', (a, C(hi - lo + 1))) * (hi - lo + 1)
            if lo == 0: return E(prim=low)
            return [([('<=', low - C(hi))], dict(prim=low)), ([('<=', C(hi + 1) - low)], dict(prim=low - C(hi - lo + 1)))]
        return E(str=Opq('str', (a, C(10))))
    M = {'getInt64': (-2**63, 2**63 - 1), 'getUInt64': (0, 2**64 - 1), 'tryGetInt64': (-2**63, 2**63 - 1), 'tryGetUInt64': (0, 2**64 - 1)}
    if q in M: return conv_cases(a, *M[q], trying=q.startswith('try'))
    return None

def conv_cases(a, lo, hi, trying):
    ov, su = C(CODES['ARITHMETIC_OVERFLOW']), C(CODES['SUCCESS'])
    good = dict(prim=ONE, out=a, status=su) if trying else dict(prim=a, ok=ONE, status=su)
    bad = dict(prim=ZERO, status=ov) if trying else dict(ok=ZERO, status=ov)
    return [([('<=', C(lo) - a), ('<=', a - C(hi))], good), ([('<=', a - C(lo - 1))], bad), ([('<=', C(hi + 1) - a)], bad)]
