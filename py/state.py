"""Abstract state: memory, numeric facts, ghost data."""
from collections import namedtuple
from poly import *

Loc = namedtuple('Loc', 'base path')            # lvalue / non-null pointer
Word = namedtuple('Word', 'loc idx')            # lvalue of a word of a slice
Iter = namedtuple('Iter', 'loc idx')            # iterator into a slice (offset from begin)
Cond = namedtuple('Cond', 'op p')               # boolean: p op 0, op in <= == !=
Opq = namedtuple('Opq', 'tag args')             # opaque value
FnRef = namedtuple('FnRef', 'fn')               # function designator (dict hidden in wrapper)
Bound = namedtuple('Bound', 'this fn')
Lam = namedtuple('Lam', 'fn caps')
SL = namedtuple('SL', 'buf cnt mag words top ver corrupt')   # abstract Slice<uint32_t>
# top: 'NZ' proven non-zero (when cnt>0), 'MZ' may be zero, 'UNK' not known
NULL = ZERO

class FnBox:
    """hashable wrapper for a function reference dict"""
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def __hash__(self): return hash(self.f['id'])
    def __eq__(self, o): return isinstance(o, FnBox) and self.f['id'] == o.f['id']
    def __repr__(self): return self.f['q'].split('::')[-1]

class Infeasible(Exception):
    pass

def map_val(v, f):
    """apply f to every polynomial inside a value"""
    if isinstance(v, Poly):
        return f(v)
    if isinstance(v, Cond):
        return Cond(v.op, f(v.p))
    if isinstance(v, SL):
        return SL(v.buf, f(v.cnt), None if v.mag is None else f(v.mag),
                  tuple((f(i), map_val(w, f)) for i, w in v.words), v.top, v.ver, v.corrupt)
    if isinstance(v, (Word, Iter)):
        return type(v)(map_val(v.loc, f), f(v.idx))
    if isinstance(v, Loc):
        if any(isinstance(x, Poly) for x in v.path):
            return Loc(v.base, tuple(f(x) if isinstance(x, Poly) else x for x in v.path))
        return v
    if isinstance(v, Opq):
        return Opq(v.tag, tuple(map_val(a, f) for a in v.args))
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(map_val(a, f) for a in v)
    return v

LE0_BUDGET = 150

class State:
    __slots__ = ('mem', 'b', 'facts', 'neq', 'eqs', 'ext', 'ghost', 'env', 'ret', 'memo', 'vwords')
    def __init__(self):
        self.mem = {}        # Loc -> value
        self.b = {}          # symbol -> (lo, hi)
        self.facts = ()      # polynomials <= 0
        self.neq = frozenset()   # polynomials != 0
        self.eqs = ()        # unsolvable equalities == 0
        self.ext = {}        # buffer id -> may be shared with objects outside the analysed call
        self.ghost = {}
        self.env = {}
        self.ret = None
        self.memo = {}
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.b = dict(self.b); s.facts = self.facts; s.neq = self.neq; s.eqs = self.eqs
        s.ext = dict(self.ext); s.ghost = dict(self.ghost); s.env = dict(self.env); s.ret = self.ret
        s.memo = {}
        return s
    # ---- intervals
    def sb(self, s):
        r = self.b.get(s)
        return r if r is not None else (S.lo[s], S.hi[s])
    def bounds(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            if not m:
                lo += c; hi += c; continue
            a, b = self.sb(m[0])
            for s in m[1:]:
                x, y = self.sb(s)
                if a >= 0 and x >= 0:
                    a, b = a * x, b * y
                else:
                    q = (a * x, a * y, b * x, b * y)
                    a, b = min(q), max(q)
                a, b = clamp(a), clamp(b)
            if c > 0:
                lo += c * a; hi += c * b
            else:
                lo += c * b; hi += c * a
        return clamp(lo), clamp(hi)
    def le0(self, p, depth=3):
        """provably p <= 0"""
        c = p.const()
        if c is not None:
            return c <= 0
        k = (p, depth)
        r = self.memo.get(k)
        if r is None:
            if self.bounds(p)[1] <= 0: r = True
            else:
                ix = self.memo.get('#ix')
                if ix is None or ix[0] is not self.facts:
                    d = {}
                    for f in self.facts:
                        for m, c in f.t.items():
                            if m: d.setdefault((m, c > 0), []).append((f, c))
                    ix = self.memo['#ix'] = (self.facts, d)
                r = self._le0(p, depth, ix[1], [LE0_BUDGET if len(self.facts) < 40 else LE0_BUDGET // 6])
            self.memo[k] = r
        return r
    def _le0(self, p, depth, ix, budget):
        """p minus non-positive combinations of known facts, each cancelling one monomial"""
        if depth == 0:
            return False
        memo = self.memo
        np = len(p.t) + 2
        for m, c in p.t.items():
            if not m:
                continue
            for f, k in ix.get((m, c > 0), ()):
                # p - (c/k) f , scaled
                if c % k == 0:
                    q = p - f * (c // k)
                else:
                    q = p * abs(k) - f * abs(c)
                if len(q.t) > np:
                    continue
                key = (q, depth - 1)
                r = memo.get(key)
                if r is None:
                    cq = q.const()
                    if cq is not None: r = cq <= 0
                    elif self.bounds(q)[1] <= 0: r = True
                    elif depth == 1: r = False
                    else:
                        budget[0] -= 1
                        if budget[0] < 0: return False
                        r = self._le0(q, depth - 1, ix, budget)
                    if budget[0] >= 0 or r: memo[key] = r
                if r:
                    return True
        return False
    def cmp0(self, op, p):
        """True / False / None for p op 0"""
        c = p.const()
        if c is not None:
            return c <= 0 if op == '<=' else (c == 0 if op == '==' else c != 0)
        if op == '<=':
            if self.le0(p): return True
            if self.le0(ONE - p): return False
            return None
        # == / !=
        if p in self.neq or (-p) in self.neq:
            r = False
        elif self.le0(p) and self.le0(-p):
            r = True
        elif self.le0(p + ONE) or self.le0(ONE - p):
            r = False
        elif p in self.eqs or (-p) in self.eqs:
            r = True
        else:
            return None
        return r if op == '==' else not r
    def set_b(self, s, lo, hi):
        if lo > hi:
            raise Infeasible()
        if self.sb(s) != (lo, hi):
            self.b[s] = (lo, hi)
            self.memo = {}
            if lo == hi:
                self.subst(s, C(lo))
    def assume(self, op, p):
        """add p op 0; raises Infeasible"""
        r = self.cmp0(op, p)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        # normalise by gcd on single-symbol polynomials
        ms = [m for m in p.t if m]
        if op == '<=':
            if len(ms) == 1 and len(ms[0]) == 1:
                s = ms[0][0]; c = p.t[ms[0]]; k = p.t.get((), 0)
                lo, hi = self.sb(s)
                if c > 0:      # s <= -k/c
                    hi = min(hi, (-k) // c)
                else:          # s >= k/(-c)
                    lo = max(lo, _ceil(k, -c))
                self.set_b(s, lo, hi)
                self.settle()
                return
            self.facts = self.facts + (p,)
            self.memo = {}
            # propagate to bounds of symbols occurring linearly
            self.propagate(p)
            if self.le0(-p):
                self.assume_eq(p)
            return
        if op == '==':
            self.assume_eq(p)
            return
        # !=
        if self.le0(p):
            self.assume('<=', p + ONE); return
        if self.le0(-p):
            self.assume('<=', ONE - p); return
        if len(ms) == 1 and len(ms[0]) == 1:
            s = ms[0][0]; c = p.t[ms[0]]; k = p.t.get((), 0)
            if (-k) % c == 0:
                v = (-k) // c
                lo, hi = self.sb(s)
                if v == lo: self.set_b(s, lo + 1, hi)
                elif v == hi: self.set_b(s, lo, hi - 1)
                else:
                    self.neq = self.neq | {p}; self.memo = {}
            return
        self.neq = self.neq | {p}
        self.memo = {}
    def propagate(self, p, only=None):
        changed = False
        for m, c in list(p.t.items()):
            if len(m) != 1:
                continue
            rest = p - Poly({m: c})
            lo_r = self.bounds(rest)[0]
            if lo_r <= -BIG:
                continue
            s = m[0]
            lo, hi = self.sb(s)
            if c > 0:
                nh = (-lo_r) // c
                if nh < hi:
                    if nh < lo: raise Infeasible()
                    self.b[s] = (lo, nh); changed = True
            else:
                nl = _ceil(lo_r, -c)
                if nl > lo:
                    if nl > hi: raise Infeasible()
                    self.b[s] = (nl, hi); changed = True
        if changed:
            self.memo = {}
        return changed
    def settle(self):
        """one round of bound propagation through the linear facts"""
        for _ in range(2):
            ch = False
            for f in self.facts:
                if self.propagate(f):
                    ch = True
            if not ch:
                break
        for f in self.facts:
            if self.bounds(f)[0] > 0:
                raise Infeasible()
        fixed = [s for s, (lo, hi) in self.b.items() if lo == hi]
        for s in fixed:
            self.subst(s, C(self.b[s][0]) if s in self.b else None)
    def assume_eq(self, p):
        lo, hi = self.bounds(p)
        if lo > 0 or hi < 0:
            raise Infeasible()
        # solvable symbol: coefficient +-1, occurs in no other monomial
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and c in (1, -1):
                s = m[0]
                if any(s in m2 for m2 in p.t if m2 != m):
                    continue
                # do not eliminate a symbol in favour of something defined from it
                if occurs(s, p, m):
                    continue
                if best is None or rank(s) > rank(best[0]):
                    best = (s, c)
        if best is None:
            self.eqs = self.eqs + (p,)
            self.facts = self.facts + (p, -p)
            self.memo = {}
            self.settle()
            return
        s, c = best
        q = Poly({(s,): c}) - p
        if c < 0:
            q = -q
        # p = c*s + rest = 0 -> s = -rest/c
        rest = p - Poly({(s,): c})
        q = -rest if c > 0 else rest
        lo, hi = self.sb(s)
        self.subst(s, q)
        if lo > -BIG: self.assume('<=', C(lo) - q)
        if hi < BIG: self.assume('<=', q - C(hi))
        self.settle()
    def subst(self, s, q):
        if q is None:
            return
        memo = {}
        def f(p):
            return subst_poly(p, s, q, memo)
        d = S.df[s]
        if d is not None and d[0] in KEEPDEF:
            # the symbol stands for an operation: remember that it equals q
            lo, hi = self.sb(s)
            self.ghost['#defs'] = self.ghost.get('#defs', ()) + (Opq(('def', d[0]), (q,) + tuple(d[1])),)
        self.b.pop(s, None)
        old_b = {x: self.sb(x) for x in self.b if S.df[x] and depends(x, s)}
        self.memo = {}
        for k in list(self.mem):
            v = self.mem[k]
            nv = map_val(v, f)
            nk = map_val(k, f) if isinstance(k, Loc) else k
            if nk != k:
                del self.mem[k]
                self.mem[nk] = nv
            elif nv is not v:
                self.mem[k] = nv
        for k, v in self.env.items():
            self.env[k] = map_val(v, f)
        for k, v in self.ghost.items():
            self.ghost[k] = map_val(v, f)
        if self.ret is not None:
            self.ret = map_val(self.ret, f)
        nf = []
        for p in self.facts:
            n = f(p)
            c = n.const()
            if c is not None:
                if c > 0: raise Infeasible()
                continue
            nf.append(n)
        self.facts = tuple(dict.fromkeys(nf))
        ne = set()
        for p in self.neq:
            n = f(p)
            c = n.const()
            if c is not None:
                if c == 0: raise Infeasible()
                continue
            ne.add(n)
        self.neq = frozenset(ne)
        nq = []
        for p in self.eqs:
            n = f(p)
            c = n.const()
            if c is not None:
                if c != 0: raise Infeasible()
                continue
            nq.append(n)
        self.eqs = tuple(nq)
        for hook in SUBST_HOOKS:
            hook(self, s, q, f)
        # bounds known for a rewritten operation hold for its new form
        for x in memo.pop('#rebuilt', {}):
            if x not in old_b: old_b[x] = self.sb(x)
        for x, (lo, hi) in old_b.items():
            self.b.pop(x, None)
            n = f(V(x)); c = n.const()
            if c is not None:
                if not lo <= c <= hi: raise Infeasible()
                continue
            m = list(n.t)
            if len(m) == 1 and len(m[0]) == 1 and n.t[m[0]] == 1 and n != V(x):
                l, h = self.sb(m[0][0])
                self.set_b(m[0][0], max(l, lo), min(h, hi))
            else:
                for g in (C(lo) - n, n - C(hi)):
                    if lo > -BIG and hi < BIG and self.cmp0('<=', g) is False: raise Infeasible()

SUBST_HOOKS = []
KEEPDEF = {'and', 'or', 'xor', 'shr', 'shl', 'udiv', 'umod', 'tdiv', 'sdiv', 'smod', 'u32', 'u64', 'gcd'}

def _ceil(a, b):
    return -((-a) // b)

def rank(s):
    # eliminate fresh result symbols first, never named inputs if avoidable
    return (0 if S.df[s] else 1, s)

def occurs(s, p, skip):
    for m in p.t:
        if m == skip:
            continue
        for x in m:
            if depends(x, s):
                return True
    return False

_dep = {}
def depends(x, s):
    if x == s:
        return True
    if not S.df[x]:
        return False
    k = (x, s)
    r = _dep.get(k)
    if r is None:
        r = False
        for a in S.df[x][1]:
            if isinstance(a, Poly):
                for y in a.syms():
                    if depends(y, s):
                        r = True
        _dep[k] = r
    return r

REBUILD = {}   # op -> function(args) -> Poly, used when arguments change

def subst_poly(p, s, q, memo):
    r = memo.get(p)
    if r is not None:
        return r
    hit = False
    for m in p.t:
        for x in m:
            if x == s or (S.df[x] and depends(x, s)):
                hit = True
    if not hit:
        memo[p] = p
        return p
    out = ZERO
    for m, c in p.t.items():
        term = C(c)
        for x in m:
            if x == s:
                term = term * q
            elif S.df[x] and depends(x, s):
                op, args, lo, hi = S.df[x]
                na = tuple(subst_poly(a, s, q, memo) if isinstance(a, Poly) else a for a in args)
                fn = REBUILD.get(op)
                nv = fn(*na) if fn else app(op, na, lo, hi, S.imp[x])
                if fn and nv.const() is None: memo.setdefault('#rebuilt', {})[x] = nv
                term = term * nv
            else:
                term = term * V(x)
        out = out + term
    memo[p] = out
    return out
