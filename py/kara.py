"""The recursive multiplication kernel analysed over integer values: its word operations are replaced by their contracts (sum,
difference, product of smaller operands, shift by whole words, split at a word boundary), which are established word by word in
the core analyses.  For every pair of word counts the result must be the product polynomial, with the sign of the operands."""
from common import *
from core import *
from valmodel import impl_table, ValEngine
import valmodel

COUNTS = [(80, 80), (81, 81), (80, 161), (200, 81), (2, 2), (3, 2), (2, 5)]

class KaraEngine(WordEngine):
    getv, setv = ValEngine.getv, ValEngine.setv
    def __init__(self, F, L, **kw):
        super().__init__(F, **kw)
        T = impl_table(IMPL)
        for k in list(T):
            if k.split('::')[-1].startswith('mulKaratsuba'): del T[k]
        self.table.update(T)
        self.L = L
        self.bad = []
        def own(this):
            return Loc(this.base, this.path[:-1]) if isinstance(this, Loc) and this.path and this.path[-1] == L.mag else None
        def reg(n):
            def d(f):
                def h(eng, st, fr, fn, this, args, node):
                    r = f(eng, st, fr, fn, this, args, node)
                    return r if isinstance(r, list) or r is NotImplemented else [(st, r)]
                self.table[n] = h
                return f
            return d
        SLQ = bq(L.sl) if False else NS + 'Slice'
        @reg(SLQ + '::count')
        def count(eng, st, fr, fn, this, args, node):
            o = own(this)
            if o is None: return NotImplemented
            n = self.words_of(st, self.getv(st, o))
            if n is None: raise Budget('word count')
            return C(n)
        @reg(IMPL + '::getMagU32Count')
        def count2(eng, st, fr, fn, this, args, node):
            n = self.words_of(st, self.getv(st, this))
            if n is None: raise Budget('word count')
            return C(n)
        for n in (SLQ + '::cloneData', IMPL + '::beginWrite'):
            reg(n)(lambda eng, st, fr, fn, this, args, node: ZERO)
        @reg(IMPL + '::hasSameSigFlag')
        def same(eng, st, fr, fn, this, args, node):
            a, b = self.getv(st, this), self.getv(st, args[0])
            x, y = sgn(st, a), sgn(st, b)
            if x is None or y is None: raise Budget('sign')
            return C(int(x == y))
        def signed(k):
            def h(eng, st, fr, fn, this, args, node):
                v = self.getv(st, this)
                x = sgn(st, v)
                if x is None: raise Budget('sign of an intermediate result')
                self.setv(st, this, v * (k if x > 0 else -k) if x else v)
                return ZERO
            return h
        reg(IMPL + '::setFlagsToPositive')(signed(1))
        reg(IMPL + '::setFlagsToNegative')(signed(-1))
        @reg(IMPL + '::split')
        def split(eng, st, fr, fn, this, args, node):
            v = self.getv(st, this)
            n, size = (num(eng, st, a).const() for a in args)
            cnt = self.words_of(st, v)
            if n is None or size is None or cnt is None: raise Budget('split arguments')
            eng.obl['split'] += 1
            if n * size < cnt:
                eng.alarm('split', fr, node, 'a magnitude of %d words is split into %d parts of %d words' % (cnt, n, size))
                return []
            if n != 2: raise Budget('split into %d parts' % n)
            sg = sgn(st, v)
            key = ('split', size) + ((v * sg),)
            for k in st.ghost.get('splits', ()):
                if k[0] == size and k[1] == v * sg: lo, hi = k[2], k[3]; break
            else:
                lo, hi = fresh('lo', 0, BIG), fresh('hi', 0, BIG)
                st.ghost['splits'] = st.ghost.get('splits', ()) + ((size, v * sg, lo, hi),)
            r = eng.alloc(st)
            set_size(st, r, 2)
            st.mem[elem(r, 0)] = lo; st.mem[elem(r, 1)] = hi
            return r
    def words_of(self, st, v):
        for p, n in st.ghost.get('counts', ()):
            if v == p or v == -p: return n.const()
        return None

def sgn(st, v):
    if st.cmp0('<=', v) is True: return 0 if st.cmp0('<=', -v) is True else -1
    lo, hi = st.bounds(v)
    if lo >= 0: return 1
    if hi <= 0: return -1
    if st.cmp0('<=', -v) is True: return 1
    return None

def run_kara(ctx):
    F = ctx.F
    L = Layout(F)
    fn = member(F, 'mulKaratsuba', BIG_, BIG_, BIG_)
    if not fn: ctx.undec('recursive multiplication kernel not found'); return
    for n, m in COUNTS:
        for s1, s2 in ((1, 1), (1, -1), (-1, -1)):
            for al in ('none', 'r=a', 'r=b', 'same', 'all'):
                st = State(); st.mem[STATUS] = ZERO
                A = fresh('A', 1, BIG); B = A if al in ('same', 'all') else fresh('B', 1, BIG)
                if al in ('same', 'all') and (n != m or s1 != s2): continue
                la, lb, lr = Loc(('a',), ()), Loc(('b',), ()), Loc(('r',), ())
                st.mem[la] = A * s1; st.mem[lb] = B * s2; st.mem[lr] = fresh('old')
                x, y = la, la if al in ('same', 'all') else lb
                r = {'r=a': la, 'r=b': lb, 'all': la}.get(al, lr)
                st.ghost['counts'] = ((A, C(n)), (B, C(m)))
                st.ghost['AB'] = (A, B)
                eng = KaraEngine(F, L)
                eng.deadline = time.process_time() + 20
                desc = '%d by %d words, signs %+d %+d, %s' % (n, m, s1, s2, al)
                try: ex = eng.inline(st, None, fn, None, [r, x, y], None)
                except Budget as e: ctx.undec('recursive multiplication [%s]: %s' % (desc, e)); continue
                ctx.count('kernel_cases')
                for a in eng.alarms.values(): ctx.alarm(a['rule'], a['file'], a['line'], fn['q'], '%s [%s]' % (a['msg'], desc), key='%s|%s' % (a['rule'], fn['q']))
                for s, _ in ex:
                    ctx.obl += 1
                    got = s.mem.get(r)
                    if not isinstance(got, Poly): ctx.undec('recursive multiplication [%s]: result' % desc); continue
                    sp = {v: (lo, hi, z) for z, v, lo, hi in s.ghost.get('splits', ())}
                    if any(p not in sp for p in s.ghost['AB']):
                        e = A * B * (s1 * s2); g = got
                    else:
                        val = {p: sp[p][0] + sp[p][1] * (1 << (32 * sp[p][2])) for p in s.ghost['AB']}
                        e = val[s.ghost['AB'][0]] * val[s.ghost['AB'][1]] * (s1 * s2); g = got
                        if any(p.syms() & g.syms() for p in s.ghost['AB']):
                            for p in set(s.ghost['AB']):
                                g = subst_poly(g, list(p.syms())[0], val[p], {})
                    if g == e: ctx.count('kernel_proved'); continue
                    d = terms.differ(s, g, e)
                    if d == 'unknown': ctx.undec('recursive multiplication [%s]: %s' % (desc, short(g)))
                    elif d: ctx.alarm('value', fn['file'], fn['l'], fn['q'], 'the product is %s, expected %s; e.g. for %s: %s instead of %s [%s]' % (short(g), short(e), wdict(d['witness']), d['got'], d['expected'], desc), key='value|' + fn['q'])
                    # inputs that are not the result keep their values
                for s, _ in ex:
                    for l, v in ((la, A * s1), (lb, B * s2)):
                        if l != r and s.mem.get(l) != s.ghost['AB'][0 if l == la else 1] * (s1 if l == la else s2):
                            ctx.alarm('operand-modified', fn['file'], fn['l'], fn['q'], 'an operand is modified [%s]' % desc, key='operand|' + fn['q'])
