"""Integer polynomials over symbols, with intervals.  Used as the numeric part of the abstract domain."""
BIG = 1 << 2000

def clamp(x):
    return BIG if x > BIG else (-BIG if x < -BIG else x)

class SymTab:
    def __init__(self):
        self.name, self.lo, self.hi, self.df, self.imp = [], [], [], [], []
        self.cons = {}
    def fresh(self, name, lo=-BIG, hi=BIG, df=None, imp=False):
        self.name.append(name); self.lo.append(lo); self.hi.append(hi); self.df.append(df); self.imp.append(imp)
        return len(self.name) - 1
    def get(self, key, name, lo=-BIG, hi=BIG, df=None, imp=False):
        s = self.cons.get(key)
        if s is None:
            s = self.cons[key] = self.fresh(name, lo, hi, df, imp)
        return s

S = SymTab()

class Poly:
    __slots__ = ('t', 'h')
    def __init__(self, t):
        self.t = t
        self.h = None
    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o):
        return not self == o
    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            v = '*'.join(S.name[s] for s in m)
            if not m:
                out.append(str(c) if abs(c) < 1 << 20 else hex(c))
            elif c == 1:
                out.append(v)
            elif c == -1:
                out.append('-' + v)
            else:
                out.append('%s*%s' % (c if abs(c) < 1 << 20 else hex(c), v))
        return '+'.join(out).replace('+-', '-')
    def const(self):
        """constant value or None"""
        t = self.t
        if not t:
            return 0
        if len(t) == 1:
            c = t.get(())
            return c
        return None
    def syms(self):
        r = set()
        for m in self.t:
            r.update(m)
        return r
    def __add__(self, o):
        if not isinstance(o, Poly):
            o = C(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = C(o)
        return self + (-o)
    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = C(o)
        t = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                k = tuple(sorted(m + m2)) if m and m2 else m + m2
                n = t.get(k, 0) + c * c2
                if n:
                    t[k] = n
                else:
                    t.pop(k, None)
        return Poly(t)
    def imprecise(self):
        return any(is_imp(s) for s in self.syms())

_impmemo = {}
def is_imp(s):
    r = _impmemo.get(s)
    if r is None:
        r = S.imp[s]
        if not r and S.df[s]:
            for a in S.df[s][1]:
                if isinstance(a, Poly) and a.imprecise():
                    r = True
        _impmemo[s] = r
    return r

_consts = {}
def C(c):
    r = _consts.get(c)
    if r is None:
        r = Poly({(): c} if c else {})
        if -1000 < c < 1000:
            _consts[c] = r
    return r

def V(s):
    return Poly({(s,): 1})

ZERO, ONE = C(0), C(1)

def fresh(name, lo=-BIG, hi=BIG, imp=False):
    return V(S.fresh(name, lo, hi, None, imp))

def app(op, args, lo=-BIG, hi=BIG, imp=False):
    """hash-consed uninterpreted application"""
    key = (op,) + tuple(args)
    s = S.cons.get(key)
    if s is None:
        nm = '%s(%s)' % (op if isinstance(op, str) else op[0], ','.join(map(str, args)))
        s = S.cons[key] = S.fresh(nm if len(nm) < 200 else nm[:200] + '~%d' % len(S.name), lo, hi, (op, tuple(args), lo, hi), imp)
    return V(s)
