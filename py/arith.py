"""Machine arithmetic on abstract values (exact when it provably fits, otherwise explicit wrap terms)."""
from poly import *
from state import *
from math import gcd

INT = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
       'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1),
       'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
       'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
       'wchar_t': (-2**31, 2**31 - 1), 'char16_t': (0, 65535), 'char32_t': (0, 2**32 - 1), 'std::byte': (0, 255)}

def clean(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for q in ('const ', 'volatile '):
            if t.startswith(q):
                t = t[len(q):]; ch = True
        for q in (' const', ' volatile', '*const'):
            if t.endswith(q):
                t = t[:-len(q)] + ('*' if q == '*const' else ''); ch = True
    return t.strip()

ENUMS = {}     # enum qualified name -> (lo, hi); filled by the engine

def rng(t):
    t = clean(t)
    r = INT.get(t)
    if r is None:
        r = ENUMS.get(t)
    return r

def is_ptr(t):
    return clean(t).endswith('*')

def is_ref(t):
    return t.rstrip().endswith('&')

def no_ref(t):
    t = t.rstrip()
    while t.endswith('&'):
        t = t[:-1].rstrip()
    return t

def strip_ref(t):
    t = t.rstrip()
    while t.endswith('&'):
        t = t[:-1].rstrip()
    return clean(t)

def is_int(t):
    return rng(t) is not None

_tmpl = {}
def no_targs(t):
    r = _tmpl.get(t)
    if r is None:
        out, d = [], 0
        for ch in t:
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif d == 0: out.append(ch)
        r = _tmpl[t] = ''.join(out)
    return r

def is_class(t):
    t = no_targs(strip_ref(t))
    return not is_int(t) and not is_ptr(t) and t not in ('void', 'double', 'float', 'long double', 'std::nullptr_t') \
        and '(' not in t.replace('(anonymous', '').replace('(unnamed', '').replace('(lambda', '') and not t.endswith(']') or '(lambda' in t

def fdiv(st, x, c):
    """floor(x / c) for constant c > 0"""
    k = x.const()
    if k is not None:
        return C(k // c)
    if c == 1:
        return x
    g = gcd(c, *x.t.values())
    if g > 1:
        return fdiv(st, Poly({m: v // g for m, v in x.t.items()}), c // g)
    # split off the exactly divisible part
    q, rest = {}, {}
    for m, v in x.t.items():
        if v % c == 0:
            q[m] = v // c
        else:
            a = v // c if not m else 0
            if a: q[m] = a
            rest[m] = v - a * c
    qp, rp = Poly(q), Poly(rest)
    if not rest:
        return qp
    lo, hi = st.bounds(rp)
    if lo >= 0 and hi < c:
        return qp
    if st.le0(-rp) and st.le0(rp - C(c - 1)):
        return qp
    k = rp.const()
    if k is not None:
        return qp + C(k // c)
    l = clamp(lo // c) if lo > -BIG else -BIG
    h = clamp(hi // c) if hi < BIG else BIG
    d = app('div', (rp, C(c)))
    s = list(d.t)[0][0] if len(d.t) == 1 and d.t[list(d.t)[0]] == 1 and len(list(d.t)[0]) == 1 else None
    if s is not None:
        a, b = st.sb(s)
        if max(a, l) > min(b, h):
            raise Infeasible()
        st.set_b(s, max(a, l), min(b, h))
        f1 = d * c - rp
        f2 = rp - d * c - C(c - 1)
        for f in (f1, f2):
            if f not in st.facts and f.const() is None:
                st.facts = st.facts + (f,)
                st.memo = {}
    return qp + d

def _rb_div(x, c):
    k, cc = x.const(), c.const()
    if k is not None:
        return C(k // cc)
    return app('div', (x, c))
REBUILD['div'] = _rb_div

def fits(st, p, lo, hi):
    a, b = st.bounds(p)
    if a >= lo and b <= hi:
        return True
    return (a >= lo or st.le0(C(lo) - p)) and (b <= hi or st.le0(p - C(hi)))

def wrap(st, p, t, ev=None):
    """value of p converted to type t; ev(kind) is called if a wrap is possible"""
    r = rng(t)
    if r is None:
        return p
    lo, hi = r
    if lo == 0 and hi == 1:
        return p
    if fits(st, p, lo, hi):
        return p
    if ev:
        ev(p, t)
    n = hi - lo + 1
    d = fdiv(st, p - C(lo), n)
    return p - d * n

def pow2(st, n):
    """2**n for polynomial n >= 0"""
    k = n.const()
    if k is not None:
        return C(1 << k) if 0 <= k < 4096 else app('p2', (n,), 1, BIG)
    k = n.t.get((), 0)
    rest = n - C(k)
    base = app('p2', (rest,), 1, BIG)
    if 0 <= k < 4096:
        return base * (1 << k)
    return app('p2', (n,), 1, BIG)

def _rb_p2(n):
    return pow2(None, n)
REBUILD['p2'] = _rb_p2

def bitop(st, op, a, b, t):
    x, y = a.const(), b.const()
    r = rng(t) or (-BIG, BIG)
    if x is not None and y is not None:
        v = x & y if op == '&' else (x | y if op == '|' else x ^ y)
        return wrap(st, C(v), t)
    if op == '&':
        for p, k in ((a, y), (b, x)):
            if k is not None:
                if k == 0: return ZERO
                if k < 0 and k == r[0] * 0 - 1: return p
                if k > 0 and (k & (k + 1)) == 0:      # low mask
                    lo, hi = st.bounds(p)
                    if fits(st, p, 0, k): return p
                    return p - fdiv(st, p, k + 1) * (k + 1)
        lo = 0; hi = r[1]
        if x is not None and x >= 0: hi = x
        if y is not None and y >= 0: hi = y
        ha, hb = st.bounds(a), st.bounds(b)
        if ha[0] >= 0: hi = min(hi, ha[1])
        if hb[0] >= 0: hi = min(hi, hb[1])
        if a == b: return a
        return app('and', tuple(sorted((a, b), key=repr)), lo if hi >= 0 else r[0], hi)
    if op == '|':
        if x == 0: return b
        if y == 0: return a
        if a == b: return a
        for p, q in ((a, b), (b, a)):       # disjoint bit ranges
            g = gcd(*p.t.values()); g &= -g
            l, h = st.bounds(q)
            if l >= 0 and h < g: return p + q
        v = app('or', tuple(sorted((a, b), key=repr)), 0 if st.bounds(a)[0] >= 0 and st.bounds(b)[0] >= 0 else r[0], r[1])
        if st.le0(ONE - a) or st.le0(ONE - b):
            s = list(v.t)[0][0]
            st.set_b(s, max(1, st.sb(s)[0]), st.sb(s)[1])
        return v
    if x == 0: return b
    if y == 0: return a
    if a == b: return ZERO
    return app('xor', tuple(sorted((a, b), key=repr)), r[0] if r[0] < 0 else 0, r[1])
for _o, _s in (('and', '&'), ('or', '|'), ('xor', '^')):
    def _mk(o, s):
        def rb(a, b):
            x, y = a.const(), b.const()
            if x is not None and y is not None:
                return C(x & y if s == '&' else (x | y if s == '|' else x ^ y))
            if x == 0: return ZERO if s == '&' else b
            if y == 0: return ZERO if s == '&' else a
            if a == b: return ZERO if s == '^' else a
            return app(o, tuple(sorted((a, b), key=repr)), -BIG if True else 0, BIG)
        return rb
    REBUILD[_o] = _mk(_o, _s)
