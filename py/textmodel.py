"""Number <-> text conversion over abstract digits: the ExprEngine string model with exact models of std::from_chars / std::to_chars.
A digit character is a polynomial in a digit symbol (48+d, 87+d, 55+d), so that the value of a text is a polynomial in its digits."""
from exprmodel import *

LETTERS = '0123456789abcdefghijklmnopqrstuvwxyz'
SLICE_APPEND = NS + 'Slice::append'

def digit_of(st, c, radix):
    """digit value of a character: polynomial, False when it is definitely not a digit, None when that is not decided"""
    if isinstance(c, Poly) and c.t and len(c.t) == 1:
        for s in c.syms():
            d = S.df[s]
            if d and d[0] == 'digchr' and c == V(s): return d[1][0]
    if not isinstance(c, Poly): return None
    lo, hi = st.bounds(c)
    for a, b, off in ((48, 57, 48), (97, 122, 87), (65, 90, 55)):
        if lo is not None and hi is not None and lo >= a and hi <= b:
            if hi - off < radix: return c - C(off)
            if lo - off >= radix: return False
            return None
    if hi is not None and hi < 48 or lo is not None and lo > 122: return False
    for a, b in ((58, 64), (91, 96)):
        if lo is not None and hi is not None and lo >= a and hi <= b: return False
    return None

def from_chars(eng, st, fr, fn, this, args, node):
    if len(args) < 3: return NotImplemented
    a, b = args[0], args[1]
    if not (isinstance(a, Loc) and isinstance(b, Loc) and a.base == b.base): return NotImplemented
    i, n = [x.path[-1].const() if x.path and isinstance(x.path[-1], Poly) else None for x in (a, b)]
    radix = C(10)
    if len(args) > 3: radix = args[3]
    radix = radix.const() if isinstance(radix, Poly) else None
    tgt = rng(strip_ref(fn['p'][2]))
    if None in (i, n, radix) or tgt is None: return NotImplemented
    eng.obl['digit-block'] += 1
    eng.parsed.append((i, n, node['l'], fr.fn['q']))
    lo, hi = tgt
    r = strip_ref(fn['r'])
    def at(k): return Loc(a.base, a.path[:-1] + (C(k),))
    neg, j = False, i
    if i < n and lo < 0 and eng.read(st, at(i), 'char', fr, node) == C(45): neg, j = True, i + 1
    v, k = ZERO, j
    while k < n:
        c = eng.read(st, at(k), 'char', fr, node)
        d = digit_of(st, c, radix)
        if d is None: raise Budget('a character read by from_chars is not classified')
        if d is False: break
        v = v * C(radix) + d; k += 1
    loc = Loc((fr.id, 't', node['id']), ())
    def done(s, ptr, ec, val=None):
        s.mem[Loc(loc.base, (r + '::ptr',))] = at(ptr); s.mem[Loc(loc.base, (r + '::ec',))] = C(ec)
        if val is not None: s.mem[args[2]] = val
        return (s, loc)
    if k == j: return [done(st, i, 22)]
    if neg: v = -v
    out = []
    st.ghost['#v'] = v
    for cond, ok in (((('<=', lambda v: v - C(hi)), ('<=', lambda v: C(lo) - v)), True), ((('<=', lambda v: C(hi + 1) - v),), False), ((('<=', lambda v: v - C(lo - 1)),), False)):
        s = st.copy()
        try:
            for op, f in cond: s.assume(op, f(s.ghost['#v']))
        except Infeasible: continue
        v2 = s.ghost.pop('#v')
        out.append(done(s, k, 0, v2) if ok else done(s, k, 34))
    return out

def to_chars(eng, st, fr, fn, this, args, node):
    """the digits of the value; the number of digits of the successive calls is prescribed by eng.plan (all lengths when it is used up)"""
    a, b, v = args[0], args[1], args[2]
    if isinstance(v, Loc): v = eng.read(st, v, strip_ref(fn['p'][2]))
    if not (isinstance(a, Loc) and isinstance(b, Loc) and a.base == b.base and isinstance(v, Poly)): return NotImplemented
    i, n = [x.path[-1].const() if x.path and isinstance(x.path[-1], Poly) else None for x in (a, b)]
    radix = args[3] if len(args) > 3 else C(10)
    radix = radix.const() if isinstance(radix, Poly) else None
    if None in (i, n, radix) or not 2 <= radix <= 36: return NotImplemented
    eng.obl['digit-block'] += 1
    r = strip_ref(fn['r'])
    def at(k): return Loc(a.base, a.path[:-1] + (C(k),))
    lo, hi = st.bounds(v)
    if hi is None: return NotImplemented
    if lo is None or lo < 0: raise Budget('to_chars of a value that may be negative: %s %s' % (v, (lo, hi)))
    top = 1
    while radix ** top <= hi: top += 1
    k = st.ghost.get('blocks', 0)
    ls = eng.plan[k] if k < len(eng.plan) else (1, 0) if eng.plan else None
    loc = Loc((fr.id, 't', node['id']), ())
    out = []
    for L in range(1, top + 1):
        if ls is not None and L not in ls and (L - top) not in ls: continue
        s = st.copy()
        s.ghost['blocks'] = k + 1
        ds = [fresh('d%d' % j, 0, radix - 1) for j in range(L)]      # least significant first
        s.ghost['#v'] = v; s.ghost['#ds'] = mk(ds)
        try:
            if L > 1: s.assume('<=', ONE - ds[-1])
            t = ZERO
            for j, d in enumerate(s.ghost['#ds'].args): t = t + d * C(radix ** j)
            define(s, s.ghost['#v'], t)
        except Infeasible: continue
        ds = list(s.ghost['#ds'].args)
        del s.ghost['#v'], s.ghost['#ds']
        if L > n - i:
            s.mem[Loc(loc.base, (r + '::ptr',))] = at(n); s.mem[Loc(loc.base, (r + '::ec',))] = C(75)
            out.append((s, loc)); continue
        for j, d in enumerate(reversed(ds)):
            s.mem[at(i + j)] = C(48) + d if radix <= 10 else (C(ord(LETTERS[d.const()])) if d.const() is not None else app('digchr', (d,), 48, 122))
        s.mem[Loc(loc.base, (r + '::ptr',))] = at(i + L); s.mem[Loc(loc.base, (r + '::ec',))] = ZERO
        out.append((s, loc))
    return out

def define(st, a, q):
    """assume a == q, eliminating the symbol of a when a is one"""
    ss = list(a.syms())
    if len(ss) == 1 and S.df[ss[0]] is None and a in (V(ss[0]), -V(ss[0])):
        lo, hi = st.sb(ss[0])
        if a != V(ss[0]): q = -q
        st.ghost['#e'] = q
        st.subst(ss[0], q)
        if hi is not None and hi < BIG: st.assume('<=', st.ghost['#e'] - C(hi))
        if lo is not None and lo > -BIG: st.assume('<=', C(lo) - st.ghost['#e'])
        del st.ghost['#e']
    else: st.assume('==', a - q)

def divide_rem(eng, st, a, b):
    """quotient and remainder of a non-negative value by a positive constant, as symbols with the division equation"""
    m = b.const()
    lo, hi = st.bounds(a)
    if m is None or m <= 0 or lo is None or lo < 0: return None
    q = fresh('q', 0, hi // m if hi is not None else BIG); r = fresh('r', 0, m - 1)
    st.ghost['#q'] = (q, r)
    define(st, a, q * m + r)
    return st.ghost.pop('#q')

class TextEngine(ExprEngine):
    def __init__(self, F, **kw):
        super().__init__(F, 'impl', **kw)
        self.plan = (); self.parsed = []
        self.hooks.pop('staticlocal', None)
        T = self.table
        T.pop(IMPL + '::fromString', None); T.pop(IMPL + '::toString', None)
        T['std::from_chars'] = from_chars; T['std::to_chars'] = to_chars
        def dvr(rem_first):
            name = IMPL + ('::modAssignAndQuotient' if rem_first else '::divideAssignAndReminder')
            old = T.get(name)
            def h(eng, st, fr, fn, this, args, node):
                a, b = eng.getv(st, this), eng.getv(st, args[0])
                x = divide_rem(eng, st, a, b) if isinstance(args[1], Loc) else None
                if x is None: return old(eng, st, fr, fn, this, args, node)
                q, r = x
                eng.setv(st, args[1], q if rem_first else r); eng.setv(st, this, r if rem_first else q)
                st.mem[STATUS] = C(CODES['SUCCESS'])
                return [(st, this)]
            return name, h
        for x in (False, True):
            n, h = dvr(x); T[n] = h
        def append(eng, st, fr, fn, this, args, node):
            o = Loc(this.base, this.path[:-1]) if isinstance(this, Loc) and this.path else None
            if o is None or st.mem.get(o) != ZERO or len(args) != 1: return NotImplemented
            v = args[0] if isinstance(args[0], Poly) else eng.read(st, args[0], 'unsigned int', fr, node)
            if not isinstance(v, Poly): return NotImplemented
            eng.setv(st, o, v)
            return [(st, this)]
        T[SLICE_APPEND] = append
        def count(eng, st, fr, fn, this, args, node):
            o = Loc(this.base, this.path[:-1]) if isinstance(this, Loc) and this.path else None
            v = st.mem.get(o)
            return [(st, app('words', (v,), 0, 2 ** 27))] if isinstance(v, Poly) else NotImplemented
        T[NS + 'Slice::count'] = count
        def rcmp(o, old):
            def h(eng, st, fr, fn, this, args, node):
                a, b = [st.mem.get(x) if isinstance(x, Loc) else x for x in args[:2]]
                if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag == 'rit': return [(st, eng.compare(st, o, b.args[0], a.args[0]))]
                return old(eng, st, fr, fn, this, args, node) if old else NotImplemented
            return h
        for o in ('==', '!=', '<', '<=', '>', '>='): T['std::operator' + o] = rcmp(o, T.get('std::operator' + o))
