"""Concretisation of abstract terms.

Two abstract values that are not syntactically equal are only reported as different when the abstract state contains a
concrete valuation (within its bounds, facts and disequalities) under which they evaluate differently.  This is pure
arithmetic on terms of the abstract domain; no code of the analysed program is executed."""
import random
from poly import *
from state import *

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

class Unknown(Exception):
    pass

class Bad(Exception):
    """valuation outside the domain of an operation"""

def hashint(key, lo, hi, seed):
    r = random.Random(repr((key, seed)))
    if lo <= -BIG: lo = -10**6
    if hi >= BIG: hi = 10**6
    return r.randint(lo, hi)

MODELLED = {'parse', 'u32', 'u64', 'bin', 'str', 'gcd', 'sv', 'cstr', 'v', 'str+', 'bitlen', 'strlen', 'fromfile', 'bool', 'maglen',
            'firstchar', 'tostr', 'getinfo', 'status', 'obj'}

class Valuation:
    def __init__(self, st, asg, seed=0, known=None):
        self.st, self.asg, self.seed = st, asg, seed
        self.memo = {}
        self.known = known
    def sym(self, s):
        r = self.memo.get(s)
        if r is None:
            r = self.memo[s] = self._sym(s)
        return r
    def _sym(self, s):
        if s in self.asg:
            return self.asg[s]
        if S.imp[s]:
            raise Unknown(S.name[s])
        d = S.df[s]
        if d is None:
            raise Unknown(S.name[s])
        op, args, lo, hi = d
        a = [self.ev(x) for x in args]
        return self.op(op, a, lo, hi, s)
    def op(self, op, a, lo, hi, s):
        try:
            if op == 'div': return a[0] // a[1]
            if op in ('tdiv', 'sdiv', 'udiv'):
                if a[1] == 0: return hashint(('div0', a[0]), lo, hi, self.seed)
                return tdiv(a[0], a[1])
            if op in ('umod', 'smod'):
                if a[1] == 0: return hashint(('mod0', a[0]), lo, hi, self.seed)
                return a[0] - a[1] * tdiv(a[0], a[1])
            if op == 'and': return a[0] & a[1]
            if op == 'or': return a[0] | a[1]
            if op == 'xor': return a[0] ^ a[1]
            if op == 'p2':
                if a[0] < 0 or a[0] > 4000: raise Bad()
                return 1 << a[0]
            if op == 'shr':
                if a[1] < 0: raise Bad()
                return a[0] >> min(a[1], 5000)
            if op == 'shl':
                if a[1] < 0 or a[1] > 4000: raise Bad()
                return a[0] << a[1]
            if op == 'abs': return abs(a[0])
            if op == 'u32': return (a[0] >> (32 * a[1])) & 0xffffffff if 0 <= a[1] < 1000 else (0 if a[0] >= 0 else 0xffffffff)
            if op == 'u64': return a[0] & (2**64 - 1)
            if op == 'notbits':
                return (1 if a[0] >= 0 else -1) * ((~abs(a[0])) & ((1 << abs(a[0]).bit_length()) - 1))
            if isinstance(op, tuple) and op[0] == 'dig':
                n, t = abs(a[0]), ''
                while n: t = '0123456789abcdefghijklmnopqrstuvwxyz'[n % op[1]] + t; n //= op[1]
                t = t or '0'
                if len(t) != op[3]: raise Bad()
                return ord(t[op[2]])
            if op == 'word': return (a[0] >> (32 * a[1])) & 0xffffffff
            if op == 'byte': return (a[0] >> (8 * a[1])) & 0xff
            if op == 'magwords': return (abs(a[0]).bit_length() + 31) // 32
            if op == 'maglen': return (abs(a[0]).bit_length() + 31) // 32
            if op == 'gcd':
                import math
                return math.gcd(abs(a[0]), abs(a[1]))
        except (OverflowError, MemoryError, TypeError):
            raise Bad()
        tag = op if isinstance(op, str) else op[0]
        if self.unknown_tag(op):
            raise Unknown(S.name[s])
        return hashint((op, tuple(a)), lo, hi, self.seed)
    def unknown_tag(self, tag):
        t = tag if isinstance(tag, str) else tag[0]
        if t in ('?', 'havoc', 'phi', 'nullfield', 'null*', 'ptrdiff', 'ptrcmp'):
            return True
        if t == 'call':
            return not (self.known and self.known(tag))
        if isinstance(tag, tuple) and t == 'v':
            return self.unknown_tag(tag[1:]) if len(tag) > 1 else False
        return False
    def ev(self, v):
        if isinstance(v, Poly):
            r = 0
            for m, c in v.t.items():
                x = c
                for s in m:
                    x *= self.sym(s)
                r += x
            return r
        if isinstance(v, Cond):
            x = self.ev(v.p)
            return int(x <= 0 if v.op == '<=' else (x == 0 if v.op == '==' else x != 0))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Opq):
            if self.unknown_tag(v.tag):
                raise Unknown(str(v.tag))
            return (v.tag,) + tuple(self.ev(a) for a in v.args)
        if isinstance(v, Loc):
            return ('loc', v.base) + tuple(self.ev(p) if isinstance(p, Poly) else p for p in v.path)
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.ev(a) for a in v)
        if isinstance(v, (int, str)) or v is None:
            return v
        return ('val', repr(v))

def base_syms(v, out, seen):
    if isinstance(v, Poly):
        for s in v.syms():
            if s in seen: continue
            seen.add(s)
            d = S.df[s]
            if d is None:
                out.add(s)
            else:
                for a in d[1]:
                    base_syms(a, out, seen)
    elif isinstance(v, Cond):
        base_syms(v.p, out, seen)
    elif isinstance(v, Opq):
        for a in v.args: base_syms(a, out, seen)
    elif isinstance(v, Loc):
        for a in v.path: base_syms(a, out, seen)
    elif isinstance(v, tuple):
        for a in v: base_syms(a, out, seen)

POOL = [0, 1, -1, 2, -2, 3, -3, 5, -7, 6, 10, 12, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**32 + 1, -2**32, 2**63 - 1, 2**63,
        -2**63, -2**63 - 1, 2**64 - 1, 2**64, 2**64 + 5, -2**64, 2**96 + 3, -(2**70) + 9]

def pick(rng, lo, hi):
    for _ in range(6):
        k = rng.random()
        if k < .55:
            v = rng.choice(POOL)
        elif k < .8:
            v = rng.randint(-40, 40)
        elif k < .9:
            base = lo if lo > -BIG else (hi if hi < BIG else 0)
            v = base + rng.randint(0, 3) if base == lo else base - rng.randint(0, 3)
        else:
            v = rng.randint(-2**80, 2**80)
        if lo <= v <= hi:
            return v
    a = lo if lo > -BIG else (hi - 2**70 if hi < BIG else -2**70)
    b = hi if hi < BIG else (lo + 2**70 if lo > -BIG else 2**70)
    return rng.randint(a, b)

_cache = [None, {}]
def models(st, terms, conds, tries=1500, want=60, seed=1):
    """yield valuations consistent with the abstract state and the extra conditions; the valuations of the last state looked at
    are kept, since many terms are compared at the same exit"""
    if _cache[0] is not st:
        _cache[0] = st; _cache[1] = {}
    if conds or st.memo is None:
        yield from _models(st, terms, conds, tries, want, seed)
        return
    key = frozenset(x for t in terms for x in base_of(t))
    ver = (st.facts, st.neq, st.eqs, tuple(st.b.items()))
    c = _cache[1].get('all')
    if c is None or c[0] != ver or not key <= c[1]:
        words = tuple(x for n in st.ghost.get('nums', ()) if isinstance(n, tuple) for x in n if isinstance(x, Poly))
        if c is not None and c[0] == ver: words += tuple(V(s) for s in c[1])
        _cache[1].clear()
        c = _cache[1]['all'] = (ver, set(), [])
        c[1].update(*[base_of(w) for w in words], key)
        c[2].extend(_models(st, words + tuple(terms), (), tries, 60, seed))
    yield from c[2][:want]

def _models(st, terms, conds, tries=1500, want=60, seed=1):
    syms, seen = set(), set()
    for t in terms: base_syms(t, syms, seen)
    for op, p in conds: base_syms(p, syms, seen)
    cons = [('<=', f) for f in st.facts] + [('!=', f) for f in st.neq] + [('==', f) for f in st.eqs] + list(conds)
    # only constraints connected to the relevant symbols
    for _ in range(3):
        for op, p in cons:
            s2, seen2 = set(), set()
            base_syms(p, s2, seen2)
            if s2 & syms:
                syms |= s2
    cons = [(op, p) for op, p in cons if base_of(p) & syms or not base_of(p)]
    defs = [d for d in (st.ghost.get('#defs') or ()) if isinstance(d, Opq) and any(isinstance(x, Poly) and base_of(x) & syms for x in d.args)] \
        if isinstance(st.ghost.get('#defs', ()), tuple) else []
    derived = [s for s in st.b if S.df[s] is not None and base_of(V(s)) & syms]
    rng = random.Random(seed)
    n = 0
    dom = []
    for s in sorted(syms):
        if not S.imp[s]:
            lo, hi = st.sb(s)
            dom.append((s, lo, hi, [x for x in POOL if lo <= x <= hi] or [lo if lo > -BIG else hi]))
    for i in range(tries):
        asg = {}
        for s, lo, hi, pool in dom:
            asg[s] = rng.choice(pool) if lo == hi or rng.random() < .45 else pick(rng, lo, hi)
        val = Valuation(st, asg, i)
        try:
            ok = True
            for op, p in cons:
                try:
                    x = val.ev(p)
                except Unknown:
                    continue
                if not (x <= 0 if op == '<=' else (x == 0 if op == '==' else x != 0)):
                    ok = False; break
            if ok:
                for s in derived:
                    try:
                        x = val.sym(s)
                    except Unknown:
                        continue
                    lo, hi = st.sb(s)
                    if not lo <= x <= hi:
                        ok = False; break
            for d in defs:
                if not ok: break
                try:
                    v = [val.ev(x) for x in d.args]
                    if val.op(d.tag[1], v[1:], -BIG, BIG, None) != v[0]: ok = False
                except Unknown: pass
            if not ok: continue
        except Bad:
            continue
        n += 1
        yield val
        if n >= want:
            return

def base_syms_of(p):
    r = set(); base_syms(p, r, set()); return r
_bo = {}
def base_of(p):
    try: r = _bo.get(p)
    except TypeError: return base_syms_of(p)
    if r is None:
        r = set(); base_syms(p, r, set())
        _bo[p] = r
    return r

def differ(st, a, b, conds=(), known=None):
    """None: equal as far as can be told; 'unknown'; or a dict describing a valuation where a and b differ"""
    if a == b:
        return None
    if isinstance(a, Poly) and isinstance(b, Poly) and st.cmp0('==', a - b) is True:
        return None
    unk = False
    for val in models(st, [a, b], conds):
        val.known = known
        try:
            x, y = val.ev(a), val.ev(b)
        except Unknown:
            unk = True
            break
        except Bad:
            continue
        if x != y:
            return {'witness': {S.name[s]: v for s, v in val.asg.items()}, 'got': x, 'expected': y}
    return 'unknown' if unk else None

def satisfiable(st, conds):
    for val in models(st, [], conds, want=1):
        return True
    return False
