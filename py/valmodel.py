"""Value-level model of the integer core: an integer object is one abstract integer (a polynomial), smart pointers and
handles are abstract locations.  Clients of the core (C interface, C++ operators, fractions, gcd) are interpreted over it."""
from eng import *
import re
import terms

NS = 'pg::base::bigNumber::'
IMPL = NS + 'BigIntegerImpl'
BI = NS + 'BigInteger'
STATUS = Loc(('status',), ())
CODES = {}

def base_q(q):
    """qualified name without template arguments"""
    out, depth, i = [], 0, 0
    while i < len(q):
        ch = q[i]
        if depth == 0 and q.startswith('operator', i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == '_')):
            j = i + 8
            m = re.match(r'(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>)', q[j:])
            if m and m.group(1) == '<<':          # operator< with template arguments
                rest = q[m.end() + j:].split('::operator')[0].replace('->', '')
                if rest.count('>') > rest.count('<'): m = re.match('<', q[j:])
            if m:
                out.append(q[i:j + m.end()]); i = j + m.end(); continue
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif depth == 0: out.append(ch)
        i += 1
    return ''.join(out)

_bq = {}
def bq(q):
    r = _bq.get(q)
    if r is None:
        r = _bq[q] = base_q(q)
    return r

def tdivp(a, b):
    x, y = a.const(), b.const()
    if x is not None and y not in (None, 0):
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q)
    if y == 1: return a
    if y == -1: return -a
    return app('tdiv', (a, b))
REBUILD['tdiv'] = tdivp
REBUILD['tdivp'] = tdivp

def tmodp(a, b):
    return a - b * tdivp(a, b)

def commut(op, a, b):
    x, y = a.const(), b.const()
    if x is not None and y is not None:
        return C({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
    if a == b:
        return ZERO if op == 'xor' else a
    return app(op, tuple(sorted((a, b), key=repr)))

def shrp(a, n):
    k = n.const()
    if k == 0: return a
    if k is not None and 0 < k < 100000 and a.const() is not None: return C(a.const() >> k)
    return app('shr', (a, n))
REBUILD['shr'] = shrp

def absp(st, v):
    if st.le0(-v): return v
    if st.le0(v): return -v
    return app('abs', (v,), 0, BIG)

def _rb_abs(v):
    c = v.const()
    return C(abs(c)) if c is not None else app('abs', (v,), 0, BIG)
REBUILD['abs'] = _rb_abs

def null_deref(eng, st, fr, n, b):
    eng.obl['deref'] += 1
    if isinstance(b, Poly) and b == ZERO and terms.satisfiable(st, []):
        eng.alarm('null-deref', fr, n, 'a null pointer is dereferenced')
    if isinstance(b, Opq) and isinstance(b.tag, tuple) and b.tag[0] == 'uninit' and terms.satisfiable(st, []):
        eng.alarm('null-deref', fr, n, 'the pointer %s of a new object is followed before it was set' % b.tag[1])

def null_obj(eng, st, fr, n, this):
    eng.obl['deref'] += 1
    if isinstance(st.mem.get(this), Poly) and st.mem[this] == ZERO and terms.satisfiable(st, []):
        eng.alarm('null-object', fr, n if isinstance(n, dict) else None, 'an integer object without core object is used')

class ValEngine(Engine):
    """level: 'impl' (BigIntegerImpl members are primitive) or 'bi' (BigInteger members are primitive too)"""
    def __init__(self, F, level='impl', **kw):
        super().__init__(F, {}, **kw)
        self.level = level
        self.table = dict(STD)
        self.table.update(impl_table(IMPL))
        if level == 'bi':
            self.table.update(impl_table(BI))
            self.table.update(bi_table())
        self.hooks['deref'] = null_deref
        self.hooks['nullptr'] = null_obj
    def intr_prefix(self, q, fn):
        b = bq(q)
        h = self.table.get(b)
        if h is not None:
            return h
        return None
    def getv(self, st, loc):
        if isinstance(loc, Poly):
            return loc
        if isinstance(loc, Loc):
            v = st.mem.get(loc)
            if isinstance(v, Poly):
                return v
            if isinstance(v, Opq):
                return app(('v', v.tag if isinstance(v.tag, str) else v.tag[0]), (v,))
            v = app(('v', 'obj'), (loc,))
            st.mem[loc] = v
            return v
        return app(('v', 'obj'), (loc,))
    def setv(self, st, loc, v):
        if isinstance(loc, Loc):
            st.mem[loc] = v
            st.ghost['moved'] = st.ghost.get('moved', frozenset()) - {loc}
    # delete expression: record what is released
    def x_CXXDeleteExpr(self, st, fr, n):
        v = self.val(st, fr, n['c'][0])
        if isinstance(v, Loc):
            if v in st.ghost.get('freed', frozenset()):
                self.alarm('double-free', fr, n, 'object is deleted twice')
            st.ghost['freed'] = st.ghost.get('freed', frozenset()) | {v}
            # destructor effects of owned smart pointers are not modelled; drop the object
            st.ghost['freedval'] = st.ghost.get('freedval', ()) + tuple((k, st.mem[k]) for k in self.subtree(st, v))
            self.kill_tree(st, v)
        self.put(st, fr, n, ZERO)
    def x_CXXNewExpr(self, st, fr, n):
        super().x_CXXNewExpr(st, fr, n)
        v = st.env.get((fr.id, n['id']))
        st.ghost['new'] = st.ghost.get('new', ()) + (v,)
        # a plain record comes without values: its pointers must be set before they are followed
        rec = self.F.records.get(n.get('at'))
        if isinstance(v, Loc) and rec and not rec['bases'] and all(m.get('implicit') for m in rec['methods'] if m['q'].split('::')[-1] == rec['q'].split('::')[-1]) \
           and [x for x in n.get('c') or [] if fr.pre.nodes[x]['k'] == 'CXXConstructExpr' and not fr.pre.nodes[x].get('c')]:
            for f in rec['fields']:
                if is_ptr(f['t']) and 'init' not in f and Loc(v.base, v.path + (f['q'],)) not in st.mem:
                    st.mem[Loc(v.base, v.path + (f['q'],))] = Opq(('uninit', f['q']), ())
        if isinstance(v, Loc) and v in st.ghost.get('freed', frozenset()):
            st.ghost['freed'] = st.ghost['freed'] - {v}

# ---------------------------------------------------------------- integer members
def H(f):
    """f(eng, st, this, args) -> list of (state, value) | value"""
    def h(eng, st, fr, fn, this, args, node):
        eng.obl['core-op'] += 1
        r = f(eng, st, fr, fn, this, args, node)
        if isinstance(r, list) or r is NotImplemented:
            return r
        return [(st, r)]
    return h

def isint(fn, i=0):
    ps = fn.get('p', [])
    return i < len(ps) and rng(strip_ref(ps[i])) is not None

def op2(f):
    @H
    def h(eng, st, fr, fn, this, args, node):
        if not args: return NotImplemented
        a, b = eng.getv(st, this), eng.getv(st, args[0])
        eng.setv(st, this, f(a, b))
        return this
    return h

def setstatus(eng, st, code):
    st.mem[STATUS] = C(code)

def fork_ok(eng, st, this, key, okp, fail_keeps=True):
    """text conversion: success or failure"""
    out = []
    okv = app('parseok', key, 0, 1)
    for b in (1, 0):
        s = st.copy()
        try:
            s.assume('==', okv - C(b))
        except Infeasible:
            continue
        if b:
            eng.setv(s, this, app('parse', key))
            s.mem[STATUS] = C(CODES.get('SUCCESS', 0))
        else:
            s.mem[STATUS] = app('parsecode', key, 1, 2**32 - 1)
        if isinstance(okp, Loc):
            s.mem[okp] = C(b)
        out.append((s, this))
    return out

def strval(eng, st, a):
    v = eng.objval(st, a) if isinstance(a, Loc) else a
    if isinstance(v, Opq) and v.tag == 'sv':
        v = v.args[0]
    return v

def impl_table(P):
    T = {}
    n = P.split('::')[-1]
    def m(name):
        def d(h):
            T[P + '::' + name] = h
            return h
        return d
    @m(n)
    @H
    def ctor(eng, st, fr, fn, this, args, node):
        ps = fn.get('p', [])
        if not ps:
            eng.kill_tree(st, this); eng.setv(st, this, ZERO); return this
        if fn.get('copy'):
            v = eng.getv(st, args[0]); eng.setv(st, this, v); return this
        if fn.get('move'):
            v = eng.getv(st, args[0]); eng.setv(st, this, v)
            eng.setv(st, args[0], ZERO)
            return this
        if len(ps) == 1 and isint(fn):
            if isinstance(args[0], Poly):
                eng.setv(st, this, args[0]); return this
            out = []
            for s, p in eng.polys(st, args[0]):
                eng.setv(s, this, p); out.append((s, this))
            return out
        t0 = ps[0]
        if 'string_view' in t0:
            eng.setv(st, this, ZERO)
            key = (strval(eng, st, args[0]), args[1] if len(args) > 1 else C(10))
            return fork_ok(eng, st, this, key, args[2] if len(args) > 2 else ZERO)
        if 'void' in t0 or (len(ps) > 1 and 'void' in ps[1]):
            p, l = (args[0], args[1]) if 'void' in t0 else (args[1], args[0])
            eng.setv(st, this, app('bin', (p, l, args[2] if len(args) > 2 else ONE)))
            return this
        if 'unique_ptr' in t0:
            src = args[0]
            v = st.mem.get(src) if isinstance(src, Loc) else src
            eng.setv(st, this, eng.getv(st, v) if isinstance(v, Loc) else app('v', (v,)))
            return this
        return NotImplemented
    @H
    def assign(eng, st, fr, fn, this, args, node):
        ps = fn.get('p', [])
        if isint(fn):
            out = []
            for s, p in eng.polys(st, args[0]):
                eng.setv(s, this, p); out.append((s, this))
            return out
        t0 = ps[0]
        if 'string_view' in t0:
            return fork_ok(eng, st, this, (strval(eng, st, args[0]), args[1] if len(args) > 1 else C(10)), args[2] if len(args) > 2 else ZERO)
        if 'void' in t0:
            eng.setv(st, this, app('bin', (args[0], args[1], args[2] if len(args) > 2 else ONE)))
            return this
        v = eng.getv(st, args[0])
        if t0.rstrip().endswith('&&') and args[0] != this and fn['n'] == 'assign':
            eng.setv(st, args[0], ZERO)
        eng.setv(st, this, v)
        return this
    for nm in ('assign', 'operator=', 'fromString', 'fromBinary'):
        T[P + '::' + nm] = assign
    @m('swap')
    @H
    def swap(eng, st, fr, fn, this, args, node):
        a, b = eng.getv(st, this), eng.getv(st, args[0])
        eng.setv(st, this, b); eng.setv(st, args[0], a)
        return ZERO
    @H
    def u32(eng, st, fr, fn, this, args, node):
        return app('u32', (eng.getv(st, this), args[0]), 0, 2**32 - 1)
    T[P + '::getU32'] = T[P + '::get2sComplement'] = u32
    @m('toU64')
    @H
    def tou64(eng, st, fr, fn, this, args, node):
        return wrap(st, eng.getv(st, this), 'unsigned long')
    @m('toString')
    @H
    def tostr(eng, st, fr, fn, this, args, node):
        loc = Loc((fr.id, 't', node['id']), ())
        st.mem[loc] = Opq('str', (eng.getv(st, this), args[0] if args else C(10)))
        return loc
    @m('copyMagDataTo')
    @H
    def cpy(eng, st, fr, fn, this, args, node):
        st.ghost['magcopy'] = Opq('magcopy', (eng.getv(st, this), args[0], args[1]))
        return app('maglen', (eng.getv(st, this), args[1]), 0, 2**64 - 1)
    @m('flagsContains')
    @H
    def fc(eng, st, fr, fn, this, args, node):
        v = eng.getv(st, this)
        k = args[0].const()
        c = {1: Cond('==', v), 2: Cond('<=', ONE - v), 4: Cond('<=', v + ONE), 0: True}.get(k)
        if c is None:
            return eng.unknown('bool', 'flags')
        r = st.cmp0(c.op, c.p) if not isinstance(c, bool) else c
        return C(int(r)) if r is not None else c
    @m('flagsEquals')
    @H
    def fe(eng, st, fr, fn, this, args, node):
        return eng.unknown('bool', 'flags')
    def pred(name, f):
        @m(name)
        @H
        def p(eng, st, fr, fn, this, args, node):
            c = f(eng.getv(st, this))
            r = st.cmp0(c.op, c.p)
            return C(int(r)) if r is not None else c
    pred('isZero', lambda v: Cond('==', v))
    pred('isOne', lambda v: Cond('==', v - ONE))
    pred('isNegOne', lambda v: Cond('==', v + ONE))
    pred('isPositive', lambda v: Cond('<=', ONE - v))
    pred('isNegative', lambda v: Cond('<=', v + ONE))
    def odd(v): return v - app('div', (v, C(2))) * 2
    pred('isOdd', lambda v: Cond('!=', odd(v)))
    pred('isEven', lambda v: Cond('==', odd(v)))
    def op1(name, f):
        @m(name)
        @H
        def p(eng, st, fr, fn, this, args, node):
            eng.setv(st, this, f(st, eng.getv(st, this)))
            return this
    op1('beZero', lambda st, v: ZERO)
    op1('beOne', lambda st, v: ONE)
    op1('beNegOne', lambda st, v: C(-1))
    op1('setFlagsToPositive', lambda st, v: absp(st, v))
    op1('setFlagsToNegative', lambda st, v: -absp(st, v))
    op1('inc', lambda st, v: v + ONE)
    op1('dec', lambda st, v: v - ONE)
    op1('notSelf', lambda st, v: C(-1) - v)
    op1('notBits', lambda st, v: app('notbits', (v,)))
    op1('negate', lambda st, v: -v)
    op1('abs', lambda st, v: absp(st, v))
    T[P + '::addAssign'] = op2(lambda a, b: a + b)
    T[P + '::subAssign'] = op2(lambda a, b: a - b)
    T[P + '::mulAssign'] = op2(lambda a, b: a * b)
    T[P + '::andAssign'] = op2(lambda a, b: commut('and', a, b))
    T[P + '::orAssign'] = op2(lambda a, b: commut('or', a, b))
    T[P + '::xorAssign'] = op2(lambda a, b: commut('xor', a, b))
    def divide(eng, st, fr, node, a, b):
        h = eng.hooks.get('bigdivide')
        if h: h(eng, st, fr, node, a, b)
    @m('divAssign')
    @H
    def dva(eng, st, fr, fn, this, args, node):
        a, b = eng.getv(st, this), eng.getv(st, args[0])
        divide(eng, st, fr, node, a, b)
        eng.setv(st, this, tdivp(a, b))
        divstatus(eng, st, b)
        return this
    def divstatus(eng, st, b):
        st.mem[STATUS] = divst(st, b)
    @m('divideAssignAndReminder')
    @H
    def dvr(eng, st, fr, fn, this, args, node):
        a, b = eng.getv(st, this), eng.getv(st, args[0])
        divide(eng, st, fr, node, a, b)
        eng.setv(st, args[1], tmodp(a, b)); eng.setv(st, this, tdivp(a, b))
        divstatus(eng, st, b)
        return this
    @m('modAssignAndQuotient')
    @H
    def mdq(eng, st, fr, fn, this, args, node):
        a, b = eng.getv(st, this), eng.getv(st, args[0])
        divide(eng, st, fr, node, a, b)
        eng.setv(st, args[1], tdivp(a, b)); eng.setv(st, this, tmodp(a, b))
        divstatus(eng, st, b)
        return this
    @m('div')
    @H
    def dv(eng, st, fr, fn, this, args, node):
        a, b = eng.getv(st, args[2]), eng.getv(st, args[3])
        divide(eng, st, fr, node, a, b)
        eng.setv(st, args[0], tdivp(a, b)); eng.setv(st, args[1], tmodp(a, b))
        divstatus(eng, st, b)
        return ZERO
    @m('mul')
    @H
    def ml(eng, st, fr, fn, this, args, node):
        a, b = eng.getv(st, args[1]), eng.getv(st, args[2])
        eng.setv(st, args[0], a * b)
        return ZERO
    @m('shiftLeftAssign')
    @H
    def shl(eng, st, fr, fn, this, args, node):
        eng.setv(st, this, eng.getv(st, this) * pow2(st, args[0]))
        return this
    @m('shiftRightAssign')
    @H
    def shr(eng, st, fr, fn, this, args, node):
        eng.setv(st, this, shrp(eng.getv(st, this), args[0]))
        return this
    @m('cmp')
    @H
    def cmp(eng, st, fr, fn, this, args, node):
        a, b = eng.getv(st, this), eng.getv(st, args[0])
        return cmp3(st, a - b)
    @m('getMagU32Count')
    @H
    def mc(eng, st, fr, fn, this, args, node):
        v = eng.getv(st, this)
        out = []
        for sg in (1, -1):
            for k in (0, 1, 2, 3):
                if k == 0 and sg < 0: continue
                s = st.copy()
                m = eng.getv(s, this) * sg
                try:
                    if k == 0: s.assume('==', m)
                    else:
                        s.assume('<=', C(2**(32 * (k - 1))) - m)
                        if k < 3: s.assume('<=', m - C(2**(32 * k) - 1))
                except Infeasible:
                    continue
                out.append((s, C(k) if k < 3 else app('maglen', (eng.getv(s, this),), 3, 2**59)))
        return out
    @m('~' + n)
    @H
    def dtor(eng, st, fr, fn, this, args, node):
        return ZERO
    return T

def nonzero(st, p, depth=0):
    """p is known to differ from zero"""
    if st.cmp0('==', p) is False: return True
    if depth > 6 or len(p.t) != 1: return False
    (m, c), = p.t.items()
    for s in m:
        if st.cmp0('==', V(s)) is False: continue
        d = S.df[s]
        if d is None: return False
        if d[0] == 'abs' and nonzero(st, d[1][0], depth + 1): continue
        if d[0] == 'gcd' and any(nonzero(st, x, depth + 1) for x in d[1]): continue
        if d[0] == 'tdiv':      # exact quotient of a non-zero number by one of its divisors
            x, g = d[1]
            gs = g.syms() if isinstance(g, Poly) else ()
            if len(gs) == 1 and g == V(list(gs)[0]):
                gd = S.df[list(gs)[0]]
                if gd and gd[0] == 'gcd' and nonzero(st, x, depth + 1):
                    if any(a == x or a == -x or is_abs_of(a, x) for a in gd[1]): continue
        return False
    return True

def is_abs_of(a, x):
    ss = list(a.syms())
    if len(ss) != 1 or a != V(ss[0]): return False
    d = S.df[ss[0]]
    return bool(d and d[0] == 'abs' and d[1][0] in (x, -x))

def divst(st, b):
    r = st.cmp0('==', b)
    if r is True: return C(CODES['DIVBY0'])
    if r is False or nonzero(st, b): return C(CODES['SUCCESS'])
    return app('divstatus', (b,), 0, 2**32 - 1)

def cmp3(st, d):
    out = []
    for c, op, p in ((-1, '<=', d + ONE), (0, '==', d), (1, '<=', ONE - d)):
        s = st.copy()
        try:
            s.assume(op, p)
            out.append((s, C(c)))
        except Infeasible:
            pass
    return out

def bi_table():
    """operators of BigInteger as primitives (their own meaning is property P17)"""
    T = {}
    P = BI + '::'
    def inplace(f):
        @H
        def h(eng, st, fr, fn, this, args, node):
            a, b = eng.getv(st, this), eng.getv(st, args[0])
            eng.setv(st, this, f(eng, st, fr, node, a, b))
            return this
        return h
    def divide(eng, st, fr, node, a, b):
        h = eng.hooks.get('bigdivide')
        if h: h(eng, st, fr, node, a, b)
        st.mem[STATUS] = divst(st, b)
    def d(f):
        def g(eng, st, fr, node, a, b):
            divide(eng, st, fr, node, a, b)
            return f(a, b)
        return g
    OPS = {'+': lambda e, s, r, n, a, b: a + b, '-': lambda e, s, r, n, a, b: a - b, '*': lambda e, s, r, n, a, b: a * b,
           '/': d(tdivp), '%': d(tmodp), '&': lambda e, s, r, n, a, b: commut('and', a, b),
           '|': lambda e, s, r, n, a, b: commut('or', a, b), '^': lambda e, s, r, n, a, b: commut('xor', a, b),
           '<<': lambda e, s, r, n, a, b: a * pow2(s, b), '>>': lambda e, s, r, n, a, b: shrp(a, b)}
    for o, f in OPS.items():
        T[P + 'operator' + o + '='] = inplace(f)
        def mk(f, o):
            @H
            def h(eng, st, fr, fn, this, args, node):
                if this is not None:
                    if not args:       # unary
                        a = eng.getv(st, this)
                        v = -a if o == '-' else a
                    else:
                        v = f(eng, st, fr, node, eng.getv(st, this), eng.getv(st, args[0]))
                elif len(args) == 2:
                    v = f(eng, st, fr, node, eng.getv(st, args[0]), eng.getv(st, args[1]))
                else:
                    return NotImplemented
                loc = Loc((fr.id, 't', node['id']), ())
                eng.setv(st, loc, v)
                return loc
            return h
        T[NS + 'operator' + o] = mk(f, o)
        T[P + 'operator' + o] = mk(f, o)
    @H
    def pp(eng, st, fr, fn, this, args, node):
        dd = 1 if fn['n'] == 'operator++' else -1
        a = eng.getv(st, this)
        eng.setv(st, this, a + C(dd))
        if args:
            loc = Loc((fr.id, 't', node['id']), ())
            eng.setv(st, loc, a)
            return loc
        return this
    T[P + 'operator++'] = T[P + 'operator--'] = pp
    def val1(f):
        @H
        def h(eng, st, fr, fn, this, args, node):
            loc = Loc((fr.id, 't', node['id']), ())
            eng.setv(st, loc, f(st, eng.getv(st, this)))
            return loc
        return h
    T[P + 'operator~'] = val1(lambda st, a: C(-1) - a)
    T[P + 'negated'] = val1(lambda st, a: -a)
    T[P + 'absoluted'] = val1(lambda st, a: absp(st, a))
    def rel(c):
        @H
        def h(eng, st, fr, fn, this, args, node):
            x = c(eng.getv(st, args[0]) - eng.getv(st, args[1]))
            r = st.cmp0(x.op, x.p)
            return C(int(r)) if r is not None else x
        return h
    T[NS + 'operator=='] = rel(lambda d: Cond('==', d))
    T[NS + 'operator!='] = rel(lambda d: Cond('!=', d))
    T[NS + 'operator<'] = rel(lambda d: Cond('<=', d + ONE))
    T[NS + 'operator<='] = rel(lambda d: Cond('<=', d))
    T[NS + 'operator>'] = rel(lambda d: Cond('<=', ONE - d))
    T[NS + 'operator>='] = rel(lambda d: Cond('<=', -d))
    @H
    def gi(eng, st, fr, fn, this, args, node):
        v = eng.getv(st, this)
        lo, hi = (-2**63, 2**63 - 1) if 'U' not in fn['n'] else (0, 2**64 - 1)
        out = []
        for b in (1, 0):
            for cs in ([('<=', C(lo) - v), ('<=', v - C(hi))],) if b else ([('<=', v - C(lo - 1))], [('<=', C(hi + 1) - v)]):
                s = st.copy()
                try:
                    for c in cs: s.assume(*c)
                except Infeasible:
                    continue
                if fn['n'].startswith('try'):
                    s.mem[args[0]] = eng.getv(s, this) if b else C(hi)
                    out.append((s, C(b)))
                else:
                    if args and isinstance(args[0], Loc): s.mem[args[0]] = C(b)
                    out.append((s, eng.getv(s, this) if b else C(hi)))
        return out
    for nm in ('getInt64', 'getUInt64', 'tryGetInt64', 'tryGetUInt64'):
        T[P + nm] = gi
    @H
    def as_(eng, st, fr, fn, this, args, node):
        v = eng.getv(st, this)
        t = fn.get('r', 'int')
        if t == 'bool':
            r = st.cmp0('!=', v)
            return C(int(r)) if r is not None else Cond('!=', v)
        if rng(t):
            return wrap(st, v, t)
        loc = Loc((fr.id, 't', node['id']), ())
        st.mem[loc] = Opq('str', (v, C(10)))
        return loc
    T[P + 'as'] = as_
    return T

# ---------------------------------------------------------------- standard library and status
STD = {}
def std(*names):
    def d(f):
        def h(eng, st, fr, fn, this, args, node):
            r = f(eng, st, fr, fn, this, args, node)
            if isinstance(r, list) or r is NotImplemented:
                return r
            return [(st, r)]
        for n in names:
            STD[n] = h
        return h
    return d

@std('std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::__addressof', 'std::launder')
def _id(eng, st, fr, fn, this, args, node):
    return args[0]

@std('std::numeric_limits::max')
def _nmax(eng, st, fr, fn, this, args, node):
    r = rng(fn['r'])
    return C(r[1]) if r else NotImplemented
@std('std::numeric_limits::min', 'std::numeric_limits::lowest')
def _nmin(eng, st, fr, fn, this, args, node):
    r = rng(fn['r'])
    return C(r[0]) if r else NotImplemented

def tmp(fr, node, k=''):
    return Loc((fr.id, 't', node['id']) if not k else (fr.id, 't', node['id'], k), ())

@std('std::min', 'std::max')
def _minmax(eng, st, fr, fn, this, args, node):
    if len(args) != 2 or not all(isinstance(a, (Loc, Word)) for a in args): return NotImplemented
    a, b = eng.read(st, args[0], fn['r'], fr, node), eng.read(st, args[1], fn['r'], fr, node)
    if not (isinstance(a, Poly) and isinstance(b, Poly)): return NotImplemented
    mx = fn['n'] == 'max'
    out = []
    r = st.cmp0('<=', a - b)
    for t in (True, False):
        if r is not None and r != t: continue
        s = st.copy() if r is None else st
        try:
            if r is None:
                s.assume('<=', a - b) if t else s.assume('<=', b - a + ONE)
        except Infeasible:
            continue
        loc = args[1] if (t == mx) else args[0]
        out.append((s, loc))
    return out

@std('std::unique_ptr::unique_ptr', 'std::shared_ptr::shared_ptr')
def _up_ctor(eng, st, fr, fn, this, args, node):
    ps = fn.get('p', [])
    if not ps:
        st.mem[this] = ZERO; return this
    a = args[0]
    if is_ref(ps[0]) and isinstance(a, Loc):
        v = eng.read(st, a, 'T *')
        st.mem[this] = v
        if ps[0].rstrip().endswith('&&'): st.mem[a] = ZERO
        return this
    st.mem[this] = a
    return this
@std('std::unique_ptr::operator->', 'std::unique_ptr::operator*', 'std::unique_ptr::get', 'std::__shared_ptr_access::operator->',
     'std::__shared_ptr_access::operator*', 'std::__shared_ptr::get', 'std::shared_ptr::operator->', 'std::shared_ptr::operator*')
def _up_get(eng, st, fr, fn, this, args, node):
    v = st.mem.get(this) if isinstance(this, Loc) else None
    if isinstance(v, Poly) and fn['n'] != 'get':
        h = eng.hooks.get('nullptr')
        if h: h(eng, st, fr, node, this)
        return Opq(('null*',), (v,))
    if v is None:
        v = Opq(('uptr',), (eng.objval(st, this) if isinstance(this, Loc) else this,))
    return v
@std('std::unique_ptr::swap')
def _up_swap(eng, st, fr, fn, this, args, node):
    a, b = st.mem.get(this, ZERO), st.mem.get(args[0], ZERO)
    st.mem[this], st.mem[args[0]] = b, a
    return ZERO
@std('std::unique_ptr::release')
def _up_rel(eng, st, fr, fn, this, args, node):
    v = st.mem.get(this, ZERO); st.mem[this] = ZERO
    return v
@std('std::unique_ptr::reset')
def _up_reset(eng, st, fr, fn, this, args, node):
    st.mem[this] = args[0] if args else ZERO
    return ZERO
@std('std::unique_ptr::operator=')
def _up_asg(eng, st, fr, fn, this, args, node):
    a = args[0]
    if isinstance(a, Loc):
        v = st.mem.get(a, ZERO)
        if a != this:
            st.mem[a] = ZERO
            st.mem[this] = v
    else:
        st.mem[this] = ZERO
    return this
@std('std::unique_ptr::operator bool')
def _up_bool(eng, st, fr, fn, this, args, node):
    v = st.mem.get(this) if isinstance(this, Loc) else None
    if isinstance(v, Loc): return ONE
    if isinstance(v, Poly): return C(int(v != ZERO))
    return NotImplemented
@std('std::make_unique', 'std::make_shared')
def _mkuniq(eng, st, fr, fn, this, args, node):
    m = re.search(r'unique_ptr<(%s)[,>]' % IMPL, fn['r'])
    if not m: return NotImplemented
    obj = Loc(('heap', fr.id, node['id']), ())
    st.ghost['new'] = st.ghost.get('new', ()) + (obj,)
    loc = tmp(fr, node)
    st.mem[loc] = obj
    if not args:
        eng.setv(st, obj, ZERO)
    elif len(args) == 1:
        a = args[0]
        v = eng.read(st, a, fn['p'][0]) if isinstance(a, Loc) else a
        if not isinstance(v, Poly): v = eng.getv(st, a)
        eng.setv(st, obj, v)
    else:
        return NotImplemented
    return loc
@std('std::swap', NS + 'swap')
def _swap(eng, st, fr, fn, this, args, node):
    a, b = args
    if not (isinstance(a, Loc) and isinstance(b, Loc)): return NotImplemented
    if a == b: return ZERO
    t = tmp(fr, node, 'swap')
    eng.copy_tree(st, a, t); eng.copy_tree(st, b, a); eng.copy_tree(st, t, b)
    eng.kill_tree(st, t)
    return ZERO

def getstatus(eng, st, fr, fn, this, args, node):
    return STATUS
for _n in (NS + 'Status::getInstance', NS + 'PGBN_GetGlobalStatus', 'PGBN_GetGlobalStatus'):
    std(_n)(getstatus)
@std(NS + 'Status::operator=')
def _stasg(eng, st, fr, fn, this, args, node):
    v = args[0]
    if isinstance(v, Loc): v = eng.read(st, v, 'unsigned int')
    if isinstance(this, Loc):
        st.mem[this] = v
        if this == STATUS:
            st.ghost['raised'] = st.ghost.get('raised', ()) + ((v,) if len(st.ghost.get('raised', ())) < 6 else ())
    eng.obl['status-write'] += 1
    return this
@std(NS + 'Status::Status')
def _stctor(eng, st, fr, fn, this, args, node):
    v = args[0] if args else ZERO
    if isinstance(v, Loc): v = eng.read(st, v, 'unsigned int')
    st.mem[this] = v
    return this
@std(NS + 'Status::~Status')
def _stdtor(eng, st, fr, fn, this, args, node):
    return ZERO
@std(NS + 'Status::getInfo')
def _stinfo(eng, st, fr, fn, this, args, node):
    v = args[0] if args else st.mem.get(this, None)
    if v is None: return NotImplemented
    loc = tmp(fr, node)
    st.mem[loc] = Opq('getinfo', (v,))
    return loc
@std(NS + 'Status::registe')
def _streg(eng, st, fr, fn, this, args, node):
    st.ghost['registe'] = st.ghost.get('registe', ()) + (Opq('registe', tuple(eng.objval(st, a) if isinstance(a, Loc) and is_class(p) else a for a, p in zip(args, fn['p']))),)
    return ZERO

# strings: opaque values
@std('std::basic_string_view::basic_string_view')
def _sv(eng, st, fr, fn, this, args, node):
    if not args:
        st.mem[this] = Opq('sv', (Opq('emptystr', ()),)); return this
    if len(args) == 1:
        a = args[0]
        if fn.get('copy') or fn.get('move'):
            v = strval(eng, st, a)
        else:
            v = cstr(eng, st, a)
        st.mem[this] = Opq('sv', (v,))
        return this
    st.mem[this] = Opq('sv', (Opq('substr', tuple(cstr(eng, st, args[0]) if i == 0 else a for i, a in enumerate(args))),))
    return this
def cstr(eng, st, a):
    """value of the text a char pointer designates"""
    if isinstance(a, Opq) and a.tag == 'cstr':
        return a.args[0]
    if isinstance(a, Loc) and a.path and a.path[-1] == ZERO:
        a = Loc(a.base, a.path[:-1])
    return Opq('text', (a,)) if not isinstance(a, Opq) else a
@std('std::basic_string::basic_string', 'std::basic_string::operator=', 'std::basic_string::assign')
def _str(eng, st, fr, fn, this, args, node):
    ps = fn.get('p', [])
    if not args:
        st.mem[this] = Opq('emptystr', ()); return this
    a = args[0]
    t = strip_ref(ps[0])
    if 'basic_string' in t or fn.get('copy') or fn.get('move'):
        v = strval(eng, st, a)
    elif is_ptr(t):
        v = cstr(eng, st, a)
    else:
        v = Opq('strof', tuple(x if not isinstance(x, Loc) else eng.objval(st, x) for x in args[:2]))
    if len(ps) >= 2 and rng(strip_ref(ps[1])) and is_ptr(t):
        v = Opq('substr', (v, args[1]))
    st.mem[this] = v
    return this
@std('std::basic_string::c_str', 'std::basic_string::data', 'std::basic_string_view::data')
def _cs(eng, st, fr, fn, this, args, node):
    v = strval(eng, st, this)
    return Opq('cstr', (v,))
@std('std::basic_string::operator[]')
def _idx(eng, st, fr, fn, this, args, node):
    v = strval(eng, st, this)
    if isinstance(args[0], Poly) and args[0] == ZERO:
        return Opq('cstr', (v,))
    return NotImplemented
@std('std::basic_string::size', 'std::basic_string::length', 'std::basic_string_view::size')
def _sz(eng, st, fr, fn, this, args, node):
    return app('strlen', (strval(eng, st, this),), 0, 2**62)
