"""Further entry states and specifications of the integer core: construction, assignment, moving, swapping, import and export of
bytes, splitting, and the contracts used when one kernel is analysed apart from its callers."""
from core import *
import core

def fn_named(F, name, *ptypes):
    return member(F, name, *ptypes)

class CopyAssign(BinaryAssign):
    """this becomes an independent copy of the operand"""
    def __init__(self): super().__init__(lambda s, a, b: b.val())

class MoveAssign(BinaryAssign):
    """this receives the operand's value; the operand stays usable"""
    def __init__(self): super().__init__(lambda s, a, b: b.val(), share=False)
    def build(self, L, op, item):
        c = case_of(L, item)
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.a.loc, case.b.val(), ('P25', 'P04'))
        if case.a is not case.b: usable(run, s, case.b)

def usable(run, s, num):
    """a moved-from object: canonical, or at least every later assignment, copy and comparison works on it"""
    L, ctx = run.L, run.ctx
    g = readback(s, L, num.loc)
    if isinstance(g, str): run.undec('moved-from object: ' + g); return
    f = g.flags & L.SIG
    if not g.null and g.lo <= g.hi <= g.size and f in (L.ZERO, L.POS, L.NEG) and (f == L.ZERO) == (not g.words):
        if run.canonical(s, g, 'the moved-from object', ('P25', 'P02')):
            ctx.count('moved_from_canonical'); return
    if not run.sat(s): return
    ctx.count('moved_from_other')
    F = ctx.F
    for nm, ps, mk in (('assign', ('long',), lambda st: ([C(-7)], C(-7))), ('assign', (BIG_,), lambda st: after_num(st, L)),
                       ('cmp', (BIG_,), lambda st: after_num(st, L)), ('addAssign', (BIG_,), lambda st: after_num(st, L)), ('isZero', (), lambda st: ([], None))):
        fn = member(F, nm, *ps)
        if not fn: continue
        st = s.copy()
        args, exp = mk(st)
        eng = WordEngine(F); eng.hooks['noreturn'] = lambda e, s_, fr, b: core.failed(run, e, s_, fr, b)
        try: ex = eng.inline(st, None, fn, num.loc, args, None)
        except Budget as e: run.undec('%s after move: %s' % (nm, e)); continue
        for a in eng.alarms.values():
            run.report(('P25', 'P02'), 'moved-from', nm, '%s on a moved-from integer: %s' % (nm, a['msg']))
        if exp is not None and nm == 'assign':
            for s2, r in ex:
                g2 = readback(s2, L, num.loc)
                if isinstance(g2, str) or g2.null or g2.sign is None: continue
                run.value(s2, g2, exp, '%s to a moved-from integer' % nm, ('P25',))

def after_num(st, L):
    o, _ = make(st, L, 'z', -1, 2, Rep(1, 0))
    return [o.loc], o.val()

class CopyCtor(Unary):
    """new object from an existing one"""
    def __init__(self, move=False):
        self.move, self.maxn = move, 3
    def build(self, L, op, item):
        c = Unary.build(self, L, op, item)
        c.src = c.a; c.this = Loc(('new',), ()); c.args = [c.a.loc]
        if not self.move: c.const = [c.a]
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.this, case.src.val(), ('P25', 'P04', 'P01'), 'the new object')
        if self.move: usable(run, s, case.src)

class FromI64(BinaryI64):
    """assignment or construction from a built-in integer"""
    def __init__(self, ctor=False):
        super().__init__(lambda s, a, b: b.words[0]); self.ctor = ctor
    def build(self, L, op, item):
        c = BinaryI64.build(self, L, op, item)
        if self.ctor: c.this = Loc(('new',), ())
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.this, case.b.words[0], run.op.tags)

class Swap(BinaryAssign):
    def __init__(self): super().__init__(None, share=True)
    def build(self, L, op, item): return case_of(L, item)
    def check(self, case, run, s, ret):
        target(run, s, case.a.loc, case.b.val(), ('P01', 'P04', 'P25'), 'the first object')
        target(run, s, case.b.loc, case.a.val(), ('P01', 'P04', 'P25'), 'the second object')

class FromWords(Unary):
    """construction from a word sequence and a sign; leading zero words allowed"""
    def __init__(self): self.maxn = 3
    def items(self, F, L, op, tier):
        return [(n, top, sg) for n in (0, 1, 2, 3) for top in range(min(n, 2) + 1) for sg in (-1, 0, 1)]
    def build(self, L, op, item):
        n, top, sg = item
        st = State()
        ws = [fresh('a%d' % i, 0, M) if i < n - top else ZERO for i in range(n)]
        v = put_vec(st, 'a', [fresh('old_aL', 0, M)] + ws + [fresh('old_aT', 0, M)])
        src = Loc(('src',), ())
        st.mem[Loc(src.base, (L.data,))] = Opq('sp', (v,)); st.mem[Loc(src.base, (L.lo,))] = C(1); st.mem[Loc(src.base, (L.hi,))] = C(1 + n)
        c = Case('%d words, %d leading zero, sign %d' % (n, top, sg), st, Loc(('new',), ()), [src, C(sg)])
        c.a = Num('a', None, sg, tuple(ws)); c.nums = [c.a]; c.sg = sg
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.this, case.a.mag() * case.sg, ('P04', 'P02'), 'the new object')

class Import(Spec):
    """two's-complement bytes in either order; top byte partitioned by sign and sign extension"""
    def __init__(self, ctor=False): self.ctor = ctor
    def items(self, F, L, op, tier):
        out = []
        k = 0
        for n in ((0, 1, 2, 3, 4, 5, 8) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 7, 8, 9, 12)):
            for little in (1, 0):
                for top in ('pos', 'zero', 'neg', 'ff') if n else ('-',):
                    for low in ('any', 'zero') if n > 1 else ('any',):
                        for i in range(4): out.append((n, little, top, low, i))
                        k += 1
        return out
    def build(self, L, op, item):
        n, little, top, low, i = item
        st = State()
        bs = []
        for k in range(n):
            if k == n - 1: b = {'pos': lambda: fresh('byte%d' % k, 1, 127), 'zero': lambda: ZERO, 'neg': lambda: fresh('byte%d' % k, 128, 254), 'ff': lambda: C(255)}[top]()
            elif low == 'zero': b = ZERO
            # only the two lowest bytes and the one below the top vary freely: the others are non-zero, non-ff
            elif k in (0, n - 2): b = fresh('byte%d' % k, 0, 255)
            else: b = fresh('byte%d' % k, 1, 254)
            bs.append(b)
        a, obs = make(st, L, 'a', (1, -1, 0, -1)[i], (2, 1, 0, 3)[i], REPS[i])
        v = Loc(('bin', 'src'), ())
        st.mem[Loc(v.base, ('#sz',))] = ONE
        set_size(st, v, n)
        for k, b in enumerate(bs if little else bs[::-1]): st.mem[elem(v, k)] = b
        c = Case('%d bytes %s endian, top %s%s; %s' % (n, 'little' if little else 'big', top, ', rest zero' if low == 'zero' else '', REPS[i]), st,
                 Loc(('new',), ()) if self.ctor else a.loc, [elem(v, 0), C(n), C(little)])
        c.a = a; c.src = Num('bytes', None, 1, tuple(bs)); c.nums = [c.src, a]; c.obs = obs; c.n = n; c.neg = top in ('neg', 'ff'); c.cached = is_cached(REPS[i])
        c.p19 = True; c.v = v; c.little = little
        return c
    def check(self, case, run, s, ret):
        e = ZERO
        for k, b in enumerate(case.src.words): e = e + b * 256 ** k
        if case.neg: e = e - C(256 ** case.n)
        target(run, s, case.this, e, ('P42', 'P19'))
        bs = case.src.words if case.little else case.src.words[::-1]
        for k, b in enumerate(bs):
            got = s.mem.get(elem(case.v, k))
            if got != b: run.scalar(s, got, b, 'source byte %d' % k, ('P19', 'P05'))

class Export(Spec):
    """magnitude bytes into a caller buffer of exactly maxlen bytes"""
    def items(self, F, L, op, tier):
        return [(sn, m, t, i) for sn in shapes(2) for m in (0, 1, 3, 4, 5, 8, 9) for t in range(5) for i in ((0, 3) if tier == 'quick' else range(4)) if sn[0] or t == 0]
    TOPS = [(1, 1), (2, 255), (256, 65535), (65536, 2**24 - 1), (2**24, M)]
    def build(self, L, op, item):
        (sg, n), m, t, i = item
        st = State()
        a, obs = make(st, L, 'a', sg, n, REPS[i])
        if n:      # partition by the byte length of the top word
            lo, hi = self.TOPS[t]
            x = fresh('a%d' % (n - 1), lo, hi)
            st.mem[elem(Loc(('vec', 'a'), ()), REPS[i].lo + n - 1)] = x
            a.words = a.words[:-1] + (x,)
            for o in obs: o.words = a.words
        v = Loc(('bin', 'dst'), ())
        st.mem[Loc(v.base, ('#sz',))] = ONE
        set_size(st, v, m)
        old = []
        for k in range(m):
            old.append(fresh('dst%d' % k, 0, 255)); st.mem[elem(v, k)] = old[-1]
        c = Case('%s, top word in [%d, %d], buffer of %d bytes; %s' % ((sname(sg, n),) + self.TOPS[t] + (m, REPS[i])), st, a.loc, [elem(v, 0), C(m)])
        c.a, c.obs, c.const, c.old, c.m, c.v = a, obs, [a], Num('dst', None, 1, tuple(old)), m, v
        c.nums = [a, c.old]
        c.bytes = ((n - 1) * 4 + (t if t else 1) if n else 0); c.p19 = True; c.cached = is_cached(REPS[i])
        return c
    def check(self, case, run, s, ret):
        n = min(case.m, case.bytes)
        run.scalar(s, ret, C(n), 'the reported length', ('P19',))
        x = case.a.mag()
        for k in range(case.m):
            got = s.mem.get(elem(case.v, k))
            if k < n: run.scalar(s, got, app('byte', (x, C(k))), 'destination byte %d' % k, ('P19',))
            else: run.scalar(s, got, case.old.words[k], 'destination byte %d behind the reported length' % k, ('P19',))

class Split(Spec):
    """low and high part of a magnitude"""
    def items(self, F, L, op, tier):
        return [(sg, n, size, i) for n in (0, 1, 2, 3, 4) for size in (1, 2, 3, 4) if 2 * size >= n for sg in ((1, -1) if n else (0,)) for i in range(4)]
    def build(self, L, op, item):
        sg, n, size, i = item
        st = State()
        a, obs = make(st, L, 'a', sg, n, REPS[i])
        c = Case('%s into 2 parts of %d words; %s' % (sname(sg, n), size, REPS[i]), st, a.loc, [C(2), C(size)])
        c.a, c.obs, c.const, c.nums, c.size, c.cached = a, obs, [a], [a], size, is_cached(REPS[i])
        return c
    def check(self, case, run, s, ret):
        if not isinstance(ret, Loc) or vsize(s, ret) is None: run.undec('result vector'); return
        n = vsize(s, ret)
        run.scalar(s, C(n), C(2), 'the number of parts', run.op.tags)
        for k in range(min(n, 2)):
            w = case.a.words[k * case.size:(k + 1) * case.size]
            e = ZERO
            for i, x in enumerate(w): e = e + x * (1 << (32 * i))
            target(run, s, elem(ret, k), e, run.op.tags, 'part %d' % k)

class MagBits(Query):
    def __init__(self): super().__init__(None, maxn=3)
    def check(self, case, run, s, ret):
        pass

class Knuth(Spec):
    """schoolbook division: dividend longer than the divisor, divisor of two or three words partitioned by its normalisation shift"""
    TOPS = [(H, M), (1 << 30, H - 1), (1 << 16, (1 << 17) - 1), (1, 1)]
    # (dividend words, divisor words), least significant first; 's' any word, 't' non-zero, 'H' top bit set, (lo, hi) a range, numbers fixed
    FIX = [
        (('s', 's', 0), (5, 'H')), (('s', 't', 0), ('s', H)), (('s', M, 't', 0), (0, M, H)), (('s', 's', H - 1), (M, H)), ((0, 0, H - 1, 't'), (1, 0, H)),
        (((0, 3), M - 1, H, 0), (M, H)), (((0, 9), 0, H, H - 1, 0), (1, 0, H)), (((0, 7), 0, H, 0), (65535, H)), (((0, 3), 0, (5, 9), H - 1), (M, H)),
        (((3, 8), 0, H, 0), (1, 0, 1 << 29)), (((0, 4), 0, M, M, 0), (M, M)), (((0, 5), 0, 0, 1), (M, 1)), (((0, 2), (0, 2), M, M - 1, 0), (M, M, M)),
        (((0, 1), M, M, (1, 3)), (0, 3)), ((0, (1, 3), 0, 1 << 31), (M, 1 << 16)), (((0, 3), 1, 2, 3, 4), (M - 2, 5))]
    SLOW = [((3, 's', 1), ('s', 1)), (((0, 3), 0, (0, 3), (1, 4)), ((7, 9), 1)), (('s', 's', 's'), (0, 'H')), ((0, 's', 't'), (M, H)), ((7, 0, 's', 't'), (3, M)), ((0, 0, 's', 't'), (1, 0, H)), (('s', 5, 't'), (M, 9)), ((0, 0, 0, 't'), (M, H)), ((0, 's', M, M - 1), (M, M)), (('s', 't', 0), ('s', 1 << 20))]
    def items(self, F, L, op, tier):
        out = [('fix', k) for k in range(len(self.FIX))]
        if tier != 'quick': out += [('slow', k) for k in range(len(self.SLOW))]
        if tier != 'quick': out += [('sym', nu, nv, z, t) for nu, nv in ((3, 2), (4, 2), (4, 3)) for z in (0, 1) for t in range(4)]
        return out
    def build(self, L, op, item):
        st = State()
        if item[0] != 'sym': wu, wv = (self.FIX if item[0] == 'fix' else self.SLOW)[item[1]]
        else:
            _, nu, nv, z, t = item
            wu = ['s'] * (nu - 1) + ([0] if z else ['t']); wv = ['s'] * (nv - 1) + [self.TOPS[t]]
        def mk(nm, ws, lo):
            out = []
            for i, w in enumerate(ws):
                f = {'s': (0, M), 't': (1, M), 'H': (H, M)}.get(w) if isinstance(w, str) else w
                out.append(C(f) if isinstance(f, int) else fresh('%s%d' % (nm, i), *f))
            loc = Loc((nm,), ())
            v = put_vec(st, nm, [fresh('old_' + nm + 'L', 0, M)] * lo + out + [fresh('old_' + nm + 'T', 0, M)])
            put_slice(st, L, loc, v, lo, lo + len(out)); put_flags(st, L, loc, 1, None, 0)
            return Num(nm, loc, 1, tuple(out))
        u, v = mk('u', wu, 1), mk('v', wv, 0)
        q, o1 = make(st, L, 'q', -1, 2, Rep(1, 1, 0, 0, True))
        r, o2 = make(st, L, 'r', 1, 3, Rep(0, 0, None, 4, True))
        c = Case('|%s| / |%s|' % (list(wu), list(wv)), st, None, [q.loc, r.loc, u.loc, v.loc])
        c.a, c.b, c.q, c.r = u, v, q.loc, r.loc
        c.nums, c.const, c.obs = [u, v], [u, v], o1 + o2
        return c
    def check(self, case, run, s, ret):
        A, B = case.a.mag(), case.b.mag()
        gq = readback(s, run.L, case.q); gr = readback(s, run.L, case.r)
        for g, w, op in ((gq, 'the quotient', 'tdiv'), (gr, 'the remainder', 'smod')):
            if isinstance(g, str): run.undec('%s: %s' % (w, g)); continue
            run.cache(s, g, w)
            if g.null or g.sign is None: run.canonical(s, g, w); continue
            e = app(op, (A, B))
            # magnitude only: the caller sets the signs
            g.sign = 1
            run.value(s, g, e, w, run.op.tags)
            if g.words and s.cmp0('!=', g.words[-1]) is not True and not g.words[-1].imprecise():
                m = next(terms.models(s, [g.words[-1]], [('==', g.words[-1])], want=1), None)
                if m: run.report(('P02',), 'canonical', w, '%s of the kernel has a zero top word, e.g. for %s' % (w, wit(m)))

# ---------------------------------------------------------------- contracts
def word_of(x, k): return app('word', (x, C(k)), 0, M)

def set_mag(eng, st, L, loc, x, n, sign):
    """object at loc receives the n lowest words of x"""
    v = eng.alloc(st)
    st.mem[Loc(v.base, ('#sz',))] = C(4)
    set_size(st, v, n + 1)
    st.mem[elem(v, 0)] = ZERO
    for k in range(n): st.mem[elem(v, k + 1)] = word_of(x, k)
    put_slice(st, L, loc, v, 1, 1 + n)
    put_flags(st, L, loc, sign if n else 0, None, 0)
    if n: st.neq = st.neq | {st.mem[elem(v, n)]}
    st.ghost['#defs'] = st.ghost.get('#defs', ()) + (Opq(('def', 'magwords'), (C(n), x)),)

def knuth_contract(L):
    def h(eng, st, fr, fn, this, args, node):
        if len(args) != 4 or not all(isinstance(a, Loc) for a in args): return NotImplemented
        q, r, u, v = args
        gu, gv = readback(st, L, u), readback(st, L, v)
        if isinstance(gu, str) or isinstance(gv, str): raise Budget('operands of the division kernel')
        if gv.null or gu.null: raise Budget('operands of the division kernel')
        eng.obl['kernel-contract'] += 1
        if len(gv.words) < 2 or len(gu.words) <= len(gv.words):
            if satisfiable(st): eng.alarm('kernel-precondition', fr, node, 'the long-division kernel is entered with %d and %d words' % (len(gu.words), len(gv.words)))
            return []
        U, W = gu.mag, gv.mag
        Q, R = app('tdiv', (U, W)), app('smod', (U, W))
        nu = len(gu.words) - (1 if gu.words[-1].const() == 0 else 0)
        out = []
        for nq in range(1, nu - len(gv.words) + 2):
            for nr in range(0, len(gv.words) + 1):
                s = st.copy()
                set_mag(eng, s, L, q, Q, nq, 1)
                set_mag(eng, s, L, r, R, nr, 1)
                out.append((s, ZERO))
        return out
    return h

def kara_contract(L):
    def h(eng, st, fr, fn, this, args, node):
        if len(args) != 3: return NotImplemented
        res, a, b = args
        ga, gb = readback(st, L, a), readback(st, L, b)
        if isinstance(ga, str) or isinstance(gb, str): raise Budget('operands of the multiplication kernel')
        if ga.null or gb.null or ga.sign is None or gb.sign is None: raise Budget('operands of the multiplication kernel')
        eng.obl['kernel-contract'] += 1
        P = ga.mag * gb.mag
        out = []
        for n in (len(ga.words) + len(gb.words) - 1, len(ga.words) + len(gb.words)):
            s = st.copy()
            set_mag(eng, s, L, res, P, n, ga.sign * gb.sign)
            out.append((s, ZERO))
        return out
    return h

def contracts(F, L, op):
    """kernels that are analysed on their own: {function id: handler}, except for the operation under analysis itself"""
    out = {}
    for nm, ps, h in (('knuthDivImpl', (BIG_,) * 4, knuth_contract), ('mulKaratsuba', (BIG_,) * 3, kara_contract)):
        f = member(F, nm, *ps)
        if f and f['id'] != op.fn['id']: out[f['id']] = h(L)
    return out

class BigMul(Spec):
    """products around the size where the recursive kernel takes over; nearly all words zero"""
    SHAPES = [(80, 80), (81, 82), (3, 81)]
    def __init__(self, assign): self.assign = assign
    def items(self, F, L, op, tier):
        return [(n, m, s, t, al) for n, m in self.SHAPES for s, t in ((1, -1), (-1, -1)) for al in (('a', 'b', 'none') if not self.assign else ('a',))]
    def build(self, L, op, item):
        n, m, s1, s2, al = item
        st = State()
        def mk(nm, k, sg):
            ws = [fresh(nm + '0', 0, M)] + [ZERO] * (k - 2) + [fresh('%s%d' % (nm, k - 1), 1, M)]
            v = put_vec(st, nm, [fresh('old_' + nm, 0, M)] + ws)
            loc = Loc((nm,), ())
            put_slice(st, L, loc, v, 1, 1 + k); put_flags(st, L, loc, sg, None, 0)
            return Num(nm, loc, sg, tuple(ws))
        a, b = mk('a', n, s1), mk('b', m, s2)
        r = {'a': a, 'b': b}.get(al)
        obs = []
        if r is None: r, obs = make(st, L, 'r', -1, 2, Rep(1, 1, 0, 0, True))
        c = Case('%s times %s into %s' % (sname(s1, n), sname(s2, m), al), st, a.loc if self.assign else None, [b.loc] if self.assign else [r.loc, a.loc, b.loc])
        c.a, c.b, c.res, c.nums, c.obs = a, b, r.loc, [a, b], obs
        c.const = [x for x in (a, b) if x.loc != r.loc]
        c.aliased = al != 'none' and not self.assign
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.res, case.a.val() * case.b.val(), run.op.tags)

def more(F, add):
    AR = ('P04', 'P24', 'P40')
    add('assign', (BIG_,), ('P04', 'P01', 'P25'), CopyAssign())
    add('BigIntegerImpl', (BIG_,), ('P01', 'P04'), CopyCtor())
    add('BigIntegerImpl', ('void *', 'unsigned long', 'bool'), ('P42', 'P19'), Import(True))
    add('operator=', (BIG_,), ('P04', 'P01', 'P25'), CopyAssign())
    add('assign', ('BigIntegerImpl&&',), ('P25', 'P04'), MoveAssign())
    add('operator=', ('BigIntegerImpl&&',), ('P25', 'P04'), MoveAssign())
    add('swap', (BIG_,), ('P01', 'P04'), Swap())
    add('assign', ('long',), AR, FromI64())
    add('BigIntegerImpl', ('long',), AR, FromI64(True))
    add('BigIntegerImpl', ('BigIntegerImpl&&',), ('P25', 'P04'), CopyCtor(True))
    add('BigIntegerImpl', ('Slice<unsigned int, std::allocator<unsigned int>>&&', 'int'), ('P04',), FromWords())
    add('assign', ('void *', 'unsigned long', 'bool'), ('P42', 'P19'), Import())
    add('copyMagDataTo', ('void *', 'unsigned long'), ('P19',), Export())
    add('split', ('unsigned long', 'unsigned long'), AR, Split())
    add('knuthDivImpl', (BIG_,) * 4, ('P40', 'P24'), Knuth())
    add('mul', (BIG_,) * 3, AR, BigMul(False))
    add('mulAssign', (BIG_,), AR, BigMul(True))
