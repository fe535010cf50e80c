"""Entry states, specifications and exit rules for the integer core (BigIntegerImpl over Slice), shared by the P01..P06,
P23, P24 checks.

The core is interpreted abstractly with its storage partitioned by shape (number of words, window position inside its
buffer, leftover words around the window, sharing, presence of the cached index); every word is an interval-bounded symbol
and every exit value is a polynomial over the entry words."""
from common import *
from wordmodel import *
from state import subst_poly
import wordmodel, terms, re, itertools, time

M = 2**32 - 1
B32 = 1 << 32

class Layout:
    """names of the representation fields, found by type"""
    def __init__(self, F):
        r = F.records.get(IMPL)
        if not r: raise Budget('integer record not found')
        self.flags = field(F, IMPL, 'unsigned int'); self.mag = field(F, IMPL, 'Slice<'); self.lazy = field(F, IMPL, 'unsigned long')
        self.sl = next((f['t'] for f in r['fields'] if f['q'] == self.mag), None)
        s = F.records.get(strip_ref(self.sl)) if self.sl else None
        if not (self.flags and self.mag and self.lazy and s): raise Budget('integer representation not recognised')
        sp = [f['q'] for f in s['fields'] if 'shared_ptr' in f['t']]
        ix = [f['q'] for f in s['fields'] if f['t'] == 'unsigned long']
        if len(sp) != 1 or len(ix) != 2: raise Budget('word window representation not recognised')
        self.data, (self.lo, self.hi) = sp[0], ix
        self.extra = [f for f in r['fields'] if f['q'] not in (self.flags, self.mag, self.lazy)]
        v = lambda n: int(F.varq[NS + 'BNFlag::' + n]['val']['i'])
        try:
            self.ZERO, self.POS, self.NEG = v('ZERO'), v('POSITIVE'), v('NEGATIVE')
            self.CACHED = v('FIRST_NZ_U32_INDEX_CALCUED')
        except (KeyError, TypeError): raise Budget('sign flags not recognised')
        self.SIG = self.ZERO | self.POS | self.NEG
        self.F = F

class Rep:
    """representation variant: window start, leftover words behind, cached index (None = not cached, with a stale value), shared
    with an untouched observer"""
    def __init__(self, lo=1, junk=0, cache=None, stale=0, obs=False):
        self.lo, self.junk, self.cache, self.stale, self.obs = lo, junk, cache, stale, obs
    def __repr__(self):
        return 'window@%d+%d%s%s' % (self.lo, self.junk, ' cached' if self.cache is not None else ' stale=%d' % self.stale if self.stale else '', ' shared' if self.obs else '')

class Num:
    """expected value of an object: sign in (-1, 0, 1) and words, least significant first"""
    def __init__(self, name, loc, sign, words):
        self.name, self.loc, self.sign, self.words = name, loc, sign, words
    def mag(self, words=None):
        r = ZERO
        for i, w in enumerate(self.words): r = r + w * (1 << (32 * i))
        return r
    def val(self):
        return self.mag() * self.sign

def words(name, n, low=None, minimum=None):
    """n symbolic words, top word non-zero; low: words below index low are 0 and word low is non-zero"""
    out = []
    for i in range(n):
        if low is not None and i < low: out.append(ZERO)
        else: out.append(fresh('%s%d' % (name, i), 1 if i == n - 1 or i == low else 0, M))
    return out

def put_slice(st, L, loc, vec, lo, hi):
    p = loc.path + (L.mag,)
    st.mem[Loc(loc.base, p + (L.data,))] = Opq('sp', (vec,))
    st.mem[Loc(loc.base, p + (L.lo,))] = C(lo)
    st.mem[Loc(loc.base, p + (L.hi,))] = C(hi)

def put_vec(st, name, cells):
    v = Loc(('vec', name), ())
    st.mem[Loc(v.base, ('#sz',))] = C(4)
    set_size(st, v, len(cells))
    for i, c in enumerate(cells): st.mem[elem(v, i)] = c
    return v

def put_flags(st, L, loc, sign, cache, stale):
    f = {0: L.ZERO, 1: L.POS, -1: L.NEG}[sign] | (L.CACHED if cache is not None else 0)
    st.mem[Loc(loc.base, loc.path + (L.flags,))] = C(f)
    st.mem[Loc(loc.base, loc.path + (L.lazy,))] = C(cache if cache is not None else stale)
    for x in L.extra:
        st.mem[Loc(loc.base, loc.path + (x['q'],))] = C(int(x['iv'])) if x.get('iv') not in (None, '') and rng(x['t']) else fresh(x['n'], imp=True)

def make(st, L, name, sign, n, rep, low=None):
    loc = Loc((name,), ())
    cache = rep.cache if sign else None
    if cache is not None and n:
        cache = min(cache, n - 1)
        low = cache
    ws = words(name, n if sign else 0, low)
    cells = [fresh('old_' + name + 'L%d' % i, 0, M) for i in range(rep.lo)] + ws + [fresh('old_' + name + 'T%d' % i, 0, M) for i in range(rep.junk)]
    vec = put_vec(st, name, cells)
    put_slice(st, L, loc, vec, rep.lo, rep.lo + len(ws))
    put_flags(st, L, loc, sign, cache, rep.stale)
    num_ = Num(name, loc, sign, tuple(ws))
    obs = []
    if rep.obs: obs.append(alias(st, L, num_, name + "'"))
    return num_, obs

def alias(st, L, a, name, sign=None, lo=0, n=None, cache=False):
    """another object sharing a's buffer: window words [lo, lo+n) of a"""
    loc = Loc((name,), ())
    p = a.loc.path + (L.mag,)
    sp = st.mem[Loc(a.loc.base, p + (L.data,))]
    alo = st.mem[Loc(a.loc.base, p + (L.lo,))].const()
    n = len(a.words) - lo if n is None else n
    st.mem[Loc(loc.base, (L.mag, L.data))] = sp
    st.mem[Loc(loc.base, (L.mag, L.lo))] = C(alo + lo)
    st.mem[Loc(loc.base, (L.mag, L.hi))] = C(alo + lo + n)
    s = a.sign if sign is None else sign
    fl = st.mem[Loc(a.loc.base, a.loc.path + (L.flags,))].const() if cache else 0
    put_flags(st, L, loc, s if n else 0, None, 0)
    if lo == 0 and n == len(a.words) and s:
        f = st.mem[Loc(a.loc.base, a.loc.path + (L.flags,))].const()
        if f & L.CACHED:
            st.mem[Loc(loc.base, (L.flags,))] = C({1: L.POS, -1: L.NEG}[s] | L.CACHED)
            st.mem[Loc(loc.base, (L.lazy,))] = st.mem[Loc(a.loc.base, a.loc.path + (L.lazy,))]
    return Num(name, loc, s if n else 0, tuple(a.words[lo:lo + n]))

class Got:
    pass

def readback(st, L, loc):
    """concrete representation of the object at loc, or a string saying why it cannot be read"""
    g = Got()
    f = st.mem.get(Loc(loc.base, loc.path + (L.flags,)))
    z = st.mem.get(Loc(loc.base, loc.path + (L.lazy,)))
    p = loc.path + (L.mag,)
    d = st.mem.get(Loc(loc.base, p + (L.data,))); lo = st.mem.get(Loc(loc.base, p + (L.lo,))); hi = st.mem.get(Loc(loc.base, p + (L.hi,)))
    if d is None or f is None or lo is None or hi is None: return 'not tracked'
    if not isinstance(f, Poly) or f.const() is None: return 'flags %s' % (f,)
    g.flags = f.const()
    g.cached = bool(g.flags & L.CACHED)
    g.lazy = z.const() if isinstance(z, Poly) else None
    g.null = not is_sp(d)
    g.sp = d
    if g.null:
        if d != ZERO: return 'storage pointer %s' % (d,)
        g.lo = g.hi = g.size = 0; g.words = ()
        return g
    if lo.const() is None or hi.const() is None: return 'window bounds'
    g.lo, g.hi = lo.const(), hi.const()
    vec = d.args[0]
    g.size = vsize(st, vec)
    if g.size is None: return 'buffer size'
    ws = []
    for i in range(g.lo, min(g.hi, g.size)):
        w = st.mem.get(elem(vec, i))
        if not isinstance(w, Poly): return 'word %d' % i
        ws.append(w)
    g.words = tuple(ws)
    s = g.flags & L.SIG
    g.sign = {L.ZERO: 0, L.POS: 1, L.NEG: -1}.get(s)
    g.mag = ZERO
    for i, w in enumerate(g.words): g.mag = g.mag + w * (1 << (32 * i))
    return g

def old_in(p):
    return any(S.name[s].startswith('old_') for s in terms.base_of(p)) if isinstance(p, Poly) else False

class Run:
    """one abstract execution of a function from one entry state"""
    def __init__(self, ctx, L, op, case):
        self.ctx, self.L, self.op, self.case = ctx, L, op, case
        self.name = op.fn['q'] + sig(op.fn)
    def report(self, tags, rule, what, msg):
        fn = self.op.fn
        for t in tags:
            if t == self.ctx.pid:
                self.ctx.alarm(rule, fn['file'], fn['l'], self.name, '%s [%s]' % (msg, self.case.desc), key='%s|%s|%s' % (rule, self.name, what))
    def undec(self, what):
        self.ctx.undec('%s [%s]: %s' % (self.name, self.case.desc, what))
    def sat(self, st, conds=()):
        return satisfiable(st, conds)
    def canonical(self, st, g, what, tags=('P02',)):
        """representation invariant of one object"""
        L = self.L
        self.ctx.obl += 4
        s = g.flags & L.SIG
        if g.null or s not in (L.ZERO, L.POS, L.NEG) or g.lo > g.hi or g.hi > g.size:
            if self.sat(st):
                self.report(tags, 'canonical', what, '%s is left %s' % (what, 'without storage' if g.null else 'with sign flags %d' % s if s not in (L.ZERO, L.POS, L.NEG) else 'with window [%d,%d) of a buffer of %d' % (g.lo, g.hi, g.size)))
            return False
        if (s == L.ZERO) != (len(g.words) == 0):
            if self.sat(st):
                self.report(tags, 'canonical', what, '%s is left with sign %s and %d words' % (what, {L.ZERO: 'zero', L.POS: 'positive', L.NEG: 'negative'}[s], len(g.words)))
            return False
        if g.words:
            t = g.words[-1]
            if st.cmp0('!=', t) is not True:
                if t.imprecise(): self.undec('%s: top word %s' % (what, t))
                else:
                    m = next(terms.models(st, [t], [('==', t)], want=1), None)
                    if m:
                        self.report(tags, 'canonical', what, '%s is left with a zero top word, e.g. for %s' % (what, wit(m)))
                        return False
                    self.ctx.count('sampled')
        return True
    def cache(self, st, g, what):
        self.ctx.obl += 1
        if not g.cached or not g.words and g.sign == 0: return
        k = g.lazy
        if k is None: self.undec('%s: cached index not constant' % what); return
        bad = None
        if k >= len(g.words): bad = ('<=', ZERO)
        conds = [('!=', g.words[i]) for i in range(min(k, len(g.words)))] + ([('==', g.words[k])] if k < len(g.words) else [])
        if k >= len(g.words):
            if self.sat(st): self.report(('P03',), 'stale-index', what, '%s keeps a cached first non-zero index %d but has %d words' % (what, k, len(g.words)))
            return
        for c in conds:
            r = st.cmp0(*c)
            if r is False: continue
            if c[1].imprecise(): self.undec('%s: cached index' % what); continue
            m = next(terms.models(st, [c[1]], [c], want=1), None)
            if m:
                self.report(('P03',), 'stale-index', what, '%s keeps a cached first non-zero index %d that does not describe its words, e.g. for %s' % (what, k, wit(m)))
                return
    def unchanged(self, st, num, tags, what, rule):
        """object num still denotes its entry value"""
        self.ctx.obl += 1
        g = readback(st, self.L, num.loc)
        if isinstance(g, str): self.undec('%s: %s' % (what, g)); return
        v = ZERO if g.sign is None else g.mag * g.sign
        d = terms.differ(st, v, num.val()) if not g.null else terms.differ(st, ZERO, num.val())
        if d == 'unknown': self.undec('%s: value %s' % (what, v))
        elif d:
            self.report(tags, rule, what, '%s changes from %s to %s, e.g. for %s: %s becomes %s' % (what, num.val(), v, wdict(d['witness']), d['expected'], d['got']))
    def value(self, st, g, exp, what, tags, conds=()):
        """object with readback g denotes exp"""
        self.ctx.obl += 1
        if g.sign is None: return
        v = g.mag * g.sign
        if v == exp or (isinstance(exp, Poly) and st.cmp0('==', v - exp) is True):
            self.ctx.count('proved')
            return
        d = terms.differ(st, v, exp, conds)
        if d is None:
            self.ctx.count('sampled'); return
        if d == 'unknown':
            self.undec('%s = %s' % (what, v)); return
        t = list(tags)
        if abs(d['got']) == abs(d['expected']): t = [x for x in tags if x not in ('P24', 'P40')] + ['P04'] if 'P04' in tags else t
        if old_in(v) and not (isinstance(exp, Poly) and old_in(exp)): t.append('P23')
        if self.case.aliased: t.append('P05')
        if self.case.cached and not set(t) & {'P04'}: t.append('P03')
        self.report(t, 'value', what, '%s is %s, expected %s; e.g. for %s: %s instead of %s' % (what, short(v), short(exp), wdict(d['witness']), d['got'], d['expected']))
    def scalar(self, st, got, exp, what, tags, conds=()):
        self.ctx.obl += 1
        if not isinstance(got, (Poly, Cond)): self.undec('%s: %s' % (what, got)); return
        if got == exp: self.ctx.count('proved'); return
        d = terms.differ(st, got, exp, conds)
        if d is None: self.ctx.count('sampled' if not (isinstance(got, Poly) and isinstance(exp, Poly) and st.cmp0('==', got - exp) is True) else 'proved'); return
        if d == 'unknown': self.undec('%s = %s' % (what, got)); return
        t = list(tags)
        if old_in(got): t.append('P23')
        if self.case.cached: t.append('P03')
        self.report(t, 'value', what, '%s is %s, expected %s; e.g. for %s: %s instead of %s' % (what, short(got), short(exp), wdict(d['witness']), d['got'], d['expected']))

def short(v):
    s = str(v)
    return s if len(s) < 300 else s[:300] + '...'
def wdict(d):
    return ', '.join('%s=%s' % (k, hex(v) if v > 4096 else v) for k, v in sorted(d.items()) if not k.startswith('old_')) or '(constants)'
def wit(m):
    return wdict({S.name[s]: v for s, v in m.asg.items()})

class Case:
    """entry state of one abstract execution: state, call arguments, the objects and what must hold of them at exit"""
    def __init__(self, desc, st, this, args):
        self.desc, self.st, self.this, self.args = desc, st, this, args
        self.out = []          # (location, name, expected value or None)
        self.const = []        # Nums that must keep their value (operands, const objects)
        self.obs = []          # Nums sharing storage, never passed to the call
        self.ret = None        # expected scalar result
        self.nums = []         # every Num whose entry words the exit check refers to
        self.aliased = False
        self.cached = False

class Op:
    def __init__(self, fn, tags, spec):
        self.fn, self.tags, self.spec = fn, tags, spec

def execute(ctx, L, op, case, check):
    """check(run, state, return value) is called for every exit state"""
    run = Run(ctx, L, op, case)
    eng = WordEngine(ctx.F)
    eng.hooks['noreturn'] = lambda e, s, fr, b: failed(run, e, s, fr, b)
    eng.deadline = time.process_time() + (25 if ctx.tier == 'quick' else 120)
    import core2
    eng.contracts = core2.contracts(ctx.F, L, op)
    st = case.st
    st.mem.setdefault(STATUS, ZERO)
    track = list({id(n): n for n in case.nums + case.const + case.obs}.values())
    st.ghost['nums'] = tuple(n.words for n in track)
    try:
        exits = eng.inline(st, None, op.fn, case.this, case.args, None)
    except Budget as e:
        run.undec(str(e)); exits = []
    ctx.count('executions'); ctx.count('exit_states', len(exits))
    for k, v in eng.obl.items(): ctx.count('sites_' + str(k), v)
    ctx.obl += sum(eng.obl.values())
    for a in eng.alarms.values():
        t = {'element-bounds': ('P24', 'P23', 'P01'), 'null-storage': ('P02', 'P25'), 'assert': ('P24', 'P04', 'P02')}.get(a['rule'], ('P24',))
        if a['rule'] == 'word-div-by-zero': t = ('P24', 'P06')
        if a['rule'] == 'kernel-precondition': t = ('P40', 'P24', 'P04')
        if getattr(case, 'p19', False): t = t + ('P19',)
        for x in t:
            if x == ctx.pid:
                ctx.alarm(a['rule'], a['file'], a['line'], a.get('function', run.name), '%s [%s via %s]' % (a['msg'], case.desc, run.name), key='%s|%s|%s' % (a['rule'], a.get('function', run.name), a['line']))
    for s, ret in exits:
        if wordmodel.imprecise_path(s):
            run.undec('path condition not tracked'); continue
        for n, w in zip(track, s.ghost['nums']): n.words = w
        check(run, s, ret)
        for n in case.obs:
            run.unchanged(s, n, ('P01',), "an object sharing storage with an operand", 'copy-dependent')
        for n in case.const:
            run.unchanged(s, n, ('P05',), 'operand ' + n.name, 'operand-modified')
    return len(exits)

def failed(run, eng, s, fr, b):
    imp = False
    if satisfiable(s):
        nid = next((x for x in reversed(b['e']) if isinstance(x, int)), None)
        node = fr.pre.nodes[nid] if nid is not None and hasattr(fr.pre, 'nodes') else None
        m = next(terms.models(s, [], [], want=1), None)
        eng.alarm('assert', fr, node, 'an internal assertion fails')

# ---------------------------------------------------------------- specifications
POS, NEG, ZER = 1, -1, 0

def params(f):
    return [strip_ref(p).replace(NS, '') + ('&&' if p.rstrip().endswith('&&') else '&' if is_ref(p) else '') for p in f['p']]

def member(F, name, *ptypes):
    for f in F.byq.get(IMPL + '::' + name, []):
        if 'blocks' not in f: continue
        ps = params(f)
        if ps == list(ptypes): return f
    return None

BIG_ = 'BigIntegerImpl&'

REPS = [Rep(1, 0, None, 0, False), Rep(0, 1, 0, 0, True), Rep(2, 2, None, 5, True), Rep(1, 1, 1, 0, False)]

def shapes(maxn, zero=True):
    out = [(0, 0)] if zero else []
    for n in range(1, maxn + 1):
        out += [(1, n), (-1, n)]
    return out

def sname(s, n):
    return '0' if not s else '%s%dw' % ('+' if s > 0 else '-', n)

class Spec:
    """(tags, builder of cases, exit check)"""

def is_cached(*reps):
    return any(r.cache is not None for r in reps)

def binary_cases(F, L, op, maxn=2, tier='quick', self_alias=True, share=True, minn=0):
    """this op= other for every shape pair; distinct, identical and storage-sharing operands"""
    k = 0
    sh = [x for x in shapes(maxn) if x[1] >= minn]
    for (s1, n1) in sh:
        for (s2, n2) in sh:
            pairs = [(0, 1), (1, 2), (2, 0), (3, 3), (0, 3)]
            sel = pairs
            k += 1
            for (i, j) in sel:
                yield ('two', s1, n1, s2, n2, i, j)
    if self_alias:
        for s1, n1 in sh:
            for i in range(4): yield ('self', s1, n1, s1, n1, i, i)
    if share:
        for s1, n1 in sh:
            if not s1: continue
            for s2 in (1, -1):
                for w in ('copy', 'low', 'high') if n1 > 1 else ('copy',):
                    for i in (0, 1, 2):
                        yield ('share-' + w, s1, n1, s2, n1, i, i)
                    k += 1

LONG = ((3, 1), (3, 2), (3, 3), (1, 3), (2, 3), (4, 1), (4, 2), (1, 4), (2, 4))
LONGER = LONG + ((4, 3), (3, 4), (4, 4), (5, 1), (5, 2), (1, 5), (6, 3), (2, 6))
def long_cases(tier, sizes=None, signs=((1, 1), (1, -1), (-1, 1), (-1, -1))):
    """longer operand pairs, every sign pair, one representation variant each"""
    k = 0
    for n1, n2 in sizes or (LONG if tier == 'quick' else LONGER):
        for s1, s2 in signs:
            i, j = [(0, 1), (1, 2), (2, 0), (3, 3), (0, 3), (0, 0)][k % 6]
            k += 1
            yield ('two', s1, n1, s2, n2, i, j)

def build_two(L, item):
    """state with a = target/first operand, b = second operand as described by item"""
    kind, s1, n1, s2, n2, i, j = item
    st = State()
    r1, r2 = REPS[i], REPS[j]
    if kind == 'two':
        a, o1 = make(st, L, 'a', s1, n1, r1)
        b, o2 = make(st, L, 'b', s2, n2, r2)
        return st, a, b, o1 + o2, '%s, %s; %s / %s' % (sname(s1, n1), sname(s2, n2), r1, r2), is_cached(r1, r2)
    if kind == 'self':
        a, o1 = make(st, L, 'a', s1, n1, r1)
        return st, a, a, o1, '%s with itself; %s' % (sname(s1, n1), r1), is_cached(r1)
    a, o1 = make(st, L, 'a', s1, n1, r1, low=None)
    w = kind.split('-')[1]
    if w == 'copy': b = alias(st, L, a, 'b', s2)
    elif w == 'low':
        st.mem[elem(Loc(('vec', 'a'), ()), r1.lo)] = x = fresh('a0', 1, M)
        a.words = (x,) + a.words[1:]
        b = alias(st, L, a, 'b', s2, 0, 1)
        for o in o1: o.words = a.words
    else: b = alias(st, L, a, 'b', s2, len(a.words) - 1, 1)
    if w == 'low' and r1.cache is not None:
        # word 0 is non-zero, index 0
        for nm in [a] + o1: st.mem[Loc(nm.loc.base, nm.loc.path + (L.lazy,))] = ZERO
    return st, a, b, o1, '%s, %s sharing storage (%s); %s' % (sname(s1, n1), sname(s2, len(b.words)), w, r1), is_cached(r1)

def lit(name, lo=-2**63, hi=2**63 - 1):
    """a symbolic machine integer, tracked like a number"""
    return Num(name, None, 1, (fresh(name, lo, hi),))

def target(run, s, loc, exp, tags, what='the result'):
    """exit obligations of an object that receives a result"""
    g = readback(s, run.L, loc)
    if isinstance(g, str): run.undec('%s: %s' % (what, g)); return None
    ok = run.canonical(s, g, what)
    run.cache(s, g, what)
    if exp is not None and g.sign is not None: run.value(s, g, exp, what, tags)
    return g

def case_of(L, item, two=None):
    st, a, b, obs, desc, cached = two or build_two(L, item)
    c = Case(desc, st, a.loc, [b.loc])
    c.a, c.b = a, b
    c.nums = [a, b]; c.obs = obs
    c.cached = cached
    c.aliased = a is b
    return c

class BinaryAssign(Spec):
    def __init__(self, exp, **kw):
        self.exp, self.kw = exp, kw
    def items(self, F, L, op, tier):
        return list(binary_cases(F, L, op, tier=tier, **self.kw)) + list(long_cases(tier))
    def build(self, L, op, item):
        c = case_of(L, item)
        if c.a is not c.b: c.const = [c.b]
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.a.loc, self.exp(s, case.a, case.b), run.op.tags)

class BinaryI64(Spec):
    """this op= built-in integer, partitioned by sign and size of the integer"""
    RANGES = [(0, 0), (1, 1), (-1, -1), (2, M), (1 << 32, 2**63 - 1), (-M, -2), (-2**63 + 1, -(1 << 32)), (-2**63, -2**63)]
    def __init__(self, exp, maxn=2):
        self.exp, self.maxn = exp, maxn
    def items(self, F, L, op, tier):
        k = 0
        for sn in shapes(self.maxn):
            for r in range(len(self.RANGES)):
                for i in range(4): yield (sn, r, i)
                k += 1
    def build(self, L, op, item):
        (sg, n), r, i = item
        st = State()
        a, obs = make(st, L, 'a', sg, n, REPS[i])
        lo, hi = self.RANGES[r]
        I = lit('i', lo, hi) if lo != hi else Num('i', None, 1, (C(lo),))
        c = Case('%s and integer in [%d, %d]; %s' % (sname(sg, n), lo, hi, REPS[i]), st, a.loc, [I.words[0]])
        c.a, c.b, c.nums, c.obs, c.cached = a, I, [a, I], obs, is_cached(REPS[i])
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.a.loc, self.exp(s, case.a, case.b), run.op.tags)

class Unary(Spec):
    def __init__(self, exp, maxn=3): self.exp, self.maxn = exp, maxn
    def items(self, F, L, op, tier):
        return [(sn, i) for sn in shapes(self.maxn) for i in range(4)]
    def build(self, L, op, item):
        (sg, n), i = item
        st = State()
        a, obs = make(st, L, 'a', sg, n, REPS[i])
        c = Case('%s; %s' % (sname(sg, n), REPS[i]), st, a.loc, [])
        c.a, c.nums, c.obs, c.cached = a, [a], obs, is_cached(REPS[i])
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.a.loc, self.exp(s, case.a), run.op.tags)

class Shift(Spec):
    AMOUNTS = [0, 1, 5, 31, 32, 33, 63, 64, 65, 70, 96, 100, 2**63, 2**64 - 1]
    def __init__(self, exp, big=True, maxn=3): self.exp, self.big, self.maxn = exp, big, maxn
    def items(self, F, L, op, tier):
        k = 0
        for sn in shapes(self.maxn):
            for s in self.AMOUNTS:
                if s > 4096 and not self.big and sn[0]: continue
                for i in range(4): yield (sn, s, i)
                k += 1
    def build(self, L, op, item):
        (sg, n), sh, i = item
        st = State()
        a, obs = make(st, L, 'a', sg, n, REPS[i])
        c = Case('%s by %d; %s' % (sname(sg, n), sh, REPS[i]), st, a.loc, [C(sh)])
        c.a, c.nums, c.obs, c.cached, c.sh = a, [a], obs, is_cached(REPS[i]), sh
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.a.loc, self.exp(s, case.a, case.sh), run.op.tags)

class Query(Spec):
    """const member without operands; exp(state, a) -> expected scalar"""
    def __init__(self, exp, args=(), maxn=3): self.exp, self.cargs, self.maxn = exp, args, maxn
    def items(self, F, L, op, tier):
        return [(sn, i, x) for sn in shapes(self.maxn) for i in range(4) for x in (self.cargs or (None,))]
    def build(self, L, op, item):
        (sg, n), i, x = item
        st = State()
        a, obs = make(st, L, 'a', sg, n, REPS[i])
        c = Case('%s%s; %s' % (sname(sg, n), '' if x is None else ', %s' % x, REPS[i]), st, a.loc, [] if x is None else [C(x)])
        c.a, c.nums, c.obs, c.const, c.cached, c.x = a, [a], obs, [a], is_cached(REPS[i]), x
        return c
    def check(self, case, run, s, ret):
        g = readback(s, run.L, case.a.loc)
        if not isinstance(g, str): run.cache(s, g, 'the object')
        for conds, e in self.exp(s, case.a, case.x):
            run.scalar(s, ret, e, 'the result', run.op.tags, conds)

class Cmp(Spec):
    def items(self, F, L, op, tier): return list(binary_cases(F, L, op, tier=tier)) + list(long_cases(tier, ((3, 1), (3, 3), (1, 3), (4, 4))))
    def build(self, L, op, item):
        c = case_of(L, item)
        c.const = [c.a, c.b] if c.a is not c.b else [c.a]
        return c
    def check(self, case, run, s, ret):
        d = case.a.val() - case.b.val()
        for conds, e in (((('<=', d + ONE),), -1), ((('==', d),), 0), ((('<=', ONE - d),), 1)):
            if s.cmp0(*conds[0]) is False: continue
            run.scalar(s, ret, C(e), 'the three-way result', run.op.tags, conds)

def div_ok(run, s, case, q, r, a, b, tags):
    """q, r: locations (or None) of quotient and remainder objects; a, b: entry Nums"""
    A, B = a.val(), b.val()
    st = s.mem.get(STATUS)
    if not b.sign or (isinstance(b.loc, type(None)) and b.words[0].const() == 0):
        run.scalar(s, st, C(CODES['DIVBY0']), 'the status after dividing by zero', ('P06',))
        return
    run.scalar(s, st, ZERO, 'the status', ('P06',)) if isinstance(st, Poly) and st.const() != 0 else run.scalar(s, ZERO, ZERO, 'the status', ('P06',))
    gq = target(run, s, q, None, tags, 'the quotient') if q else None
    gr = target(run, s, r, None, tags, 'the remainder') if r else None
    qv = gq.mag * gq.sign if gq and gq.sign is not None else None
    rv = gr.mag * gr.sign if gr and gr.sign is not None else None
    if qv is not None: run.value(s, gq, app('tdiv', (A, B)), 'the quotient', tags)
    if rv is not None: run.value(s, gr, app('smod', (A, B)), 'the remainder', tags)
    if qv is not None and rv is not None:
        if qv * B + rv == A: run.ctx.count('division_identity_proved')
        else: run.ctx.count('division_identity_sampled')

class Div(Spec):
    """division family; role(case) -> (this, args, quotient location, remainder location, dividend, divisor)"""
    def __init__(self, mode, maxn=2, wide=False): self.mode, self.maxn, self.wide = mode, maxn, wide
    def items(self, F, L, op, tier):
        out = list(binary_cases(F, L, op, maxn=self.maxn, tier=tier)) + list(long_cases(tier, ((3, 1), (3, 2), (3, 3), (1, 3), (4, 2))))
        if self.mode in ('static', 'divrem', 'modquo'):
            base = [x for x in out if x[0] == 'two']
            out = [x + (al,) for x in out for al in ('none',)]
            als = {'static': ('q=a', 'r=a', 'q=b', 'r=b', 'qr=ab', 'qr=ba'), 'divrem': ('r=b',), 'modquo': ('q=b',)}[self.mode]
            for k, x in enumerate(base):
                out += [x + (al,) for al in als]
            selfs = [x for x in binary_cases(F, L, op, maxn=self.maxn, tier=tier, share=False) if x[0] == 'self']
        else: out = [x + ('none',) for x in out]
        if self.wide:
            for w in WIDE: out.append(('wide',) + w + ('none',))
        return out
    def build(self, L, op, item):
        al = item[-1]
        c = case_of(L, item[:-1], build_wide(L, item[1:-1]) if item[0] == 'wide' else None)
        st, a, b = c.st, c.a, c.b
        c.desc += '' if al == 'none' else '; ' + al
        def outobj(nm):
            o, obs = make(st, L, nm, -1, 2, Rep(1, 1, 0, 0, True))
            c.obs = c.obs + obs
            return o.loc
        if self.mode == 'assign': c.this, c.args, c.q, c.r = a.loc, [b.loc], a.loc, None
        elif self.mode == 'divrem':
            c.q = a.loc; c.r = b.loc if al == 'r=b' else outobj('r'); c.this, c.args = a.loc, [b.loc, c.r]
        elif self.mode == 'modquo':
            c.r = a.loc; c.q = b.loc if al == 'q=b' else outobj('q'); c.this, c.args = a.loc, [b.loc, c.q]
        else:
            c.q = {'q=a': a.loc, 'q=b': b.loc, 'qr=ab': a.loc, 'qr=ba': b.loc}.get(al) or outobj('q')
            c.r = {'r=a': a.loc, 'r=b': b.loc, 'qr=ab': b.loc, 'qr=ba': a.loc}.get(al) or outobj('r')
            c.this, c.args = None, [c.q, c.r, a.loc, b.loc]
        c.const = [n for n in {id(a): a, id(b): b}.values() if n.loc not in (c.q, c.r)]
        c.aliased = c.aliased or al != 'none'
        return c
    def check(self, case, run, s, ret):
        div_ok(run, s, case, case.q, case.r, case.a, case.b, run.op.tags)

class DivI64(BinaryI64):
    def __init__(self, mode): self.mode, self.maxn = mode, 2
    def build(self, L, op, item):
        c = BinaryI64.build(self, L, op, item)
        st, a = c.st, c.a
        def outobj(nm):
            o, obs = make(st, L, nm, -1, 2, Rep(1, 1, 0, 0, True))
            c.obs = c.obs + obs
            return o.loc
        I = c.b.words[0]
        c.q = c.r = None
        if self.mode == 'assign': c.q = a.loc
        elif self.mode == 'divrem': c.q, c.r = a.loc, outobj('r'); c.args = [I, c.r]
        elif self.mode == 'modquo': c.r, c.q = a.loc, outobj('q'); c.args = [I, c.q]
        else:
            c.q, c.r = outobj('q'), outobj('r'); c.this, c.args = None, [c.q, c.r, a.loc, I]
            c.const = [a]
        return c
    def check(self, case, run, s, ret):
        div_ok(run, s, case, case.q, case.r, case.a, case.b, run.op.tags)

# divisors and dividends of two and three words with mostly constant words: reach the quotient-correction steps
H = 1 << 31
WIDE = [(('s', M, 's'), (0, 'H')), ((0, 's', 'H-'), (M, 'H')), (('s', 0, 0, 's'), ('s', 0, 'H')), ((3, 0, H), (1, 0, 1 << 29)), ((0, 0, 's', H), (M, 0, H)),
        (('s', 's', M), (M, M)), ((0, 'M-', H - 1), (M, H)), (('s', 's', 5), ('s', 7))]
def build_wide(L, item):
    wa, wb = item
    st = State()
    def mk(nm, ws):
        out = []
        for i, w in enumerate(ws):
            lo = 1 if i == len(ws) - 1 else 0
            if w == 's': out.append(fresh('%s%d' % (nm, i), lo, M))
            elif w == 'H': out.append(fresh('%s%d' % (nm, i), H, M))
            elif w == 'H-': out.append(fresh('%s%d' % (nm, i), 1, H))
            elif w == 'M-': out.append(fresh('%s%d' % (nm, i), M - 3, M))
            else: out.append(C(w))
        loc = Loc((nm,), ())
        v = put_vec(st, nm, [fresh('old_' + nm, 0, M)] + out)
        put_slice(st, L, loc, v, 1, 1 + len(out)); put_flags(st, L, loc, 1, None, 0)
        return Num(nm, loc, 1, tuple(out))
    a, b = mk('a', wa), mk('b', wb)
    return st, a, b, [], 'words %s / %s' % (list(wa), list(wb)), False

class Mul3(Spec):
    """static three-operand product, every aliasing of the result"""
    def __init__(self, maxn=2, minn=0): self.maxn, self.minn = maxn, minn
    def items(self, F, L, op, tier):
        out = []
        for k, x in enumerate(list(binary_cases(F, L, op, maxn=self.maxn, minn=self.minn, tier=tier)) + ([] if self.minn else list(long_cases(tier, ((3, 1), (2, 3), (3, 3), (1, 3), (4, 2)))))):
            for al in ('none', 'r=a', 'r=b'): out.append(x + (al,))
        return out
    def build(self, L, op, item):
        al = item[-1]
        c = case_of(L, item[:-1])
        c.desc += '' if al == 'none' else '; ' + al
        if al == 'none':
            o, obs = make(c.st, L, 'r', -1, 2, Rep(1, 1, 0, 0, True))
            c.obs = c.obs + obs; c.res = o.loc
        else: c.res = c.a.loc if al == 'r=a' else c.b.loc
        c.this, c.args = None, [c.res, c.a.loc, c.b.loc]
        c.const = [n for n in {id(c.a): c.a, id(c.b): c.b}.values() if n.loc != c.res]
        c.aliased = c.aliased or al != 'none'
        return c
    def check(self, case, run, s, ret):
        target(run, s, case.res, case.a.val() * case.b.val(), run.op.tags)

def absval(s, a): return a.mag()

def specs(F):
    """name -> Op; functions that are not found under their name are reported as undecided by the caller"""
    out, miss = [], []
    def add(name, ptypes, tags, spec):
        f = member(F, name, *ptypes)
        if f is None: miss.append('%s(%s)' % (name, ', '.join(ptypes))); return
        out.append(Op(f, tuple(tags), spec))
    AR = ('P04', 'P24', 'P40')
    BW = ('P42',)
    B = (BIG_,)
    add('addAssign', B, AR, BinaryAssign(lambda s, a, b: a.val() + b.val()))
    add('subAssign', B, AR, BinaryAssign(lambda s, a, b: a.val() - b.val()))
    add('mulAssign', B, AR, BinaryAssign(lambda s, a, b: a.val() * b.val()))
    add('addAssign', ('long',), AR, BinaryI64(lambda s, a, b: a.val() + b.words[0]))
    add('subAssign', ('long',), AR, BinaryI64(lambda s, a, b: a.val() - b.words[0]))
    add('mulAssign', ('long',), AR, BinaryI64(lambda s, a, b: a.val() * b.words[0]))
    for n, o in (('and', 'and'), ('or', 'or'), ('xor', 'xor')):
        add(n + 'Assign', B, BW, BinaryAssign(lambda s, a, b, o=o: app(o, (a.val(), b.val()))))
        add(n + 'Assign', ('long',), BW, BinaryI64(lambda s, a, b, o=o: app(o, (a.val(), b.words[0]))))
    add('notSelf', (), BW, Unary(lambda s, a: -a.val() - ONE))
    add('notBits', (), BW, Unary(lambda s, a: app('notbits', (a.val(),))))
    add('negate', (), AR, Unary(lambda s, a: -a.val()))
    add('abs', (), AR, Unary(absval))
    add('inc', (), AR, Unary(lambda s, a: a.val() + ONE))
    add('dec', (), AR, Unary(lambda s, a: a.val() - ONE))
    add('shiftLeftAssign', ('unsigned long',), BW + ('P24', 'P40'), Shift(lambda s, a, k: a.val() * (1 << k) if k < 5000 else ZERO, big=False))
    add('shiftRightAssign', ('unsigned long',), BW + ('P24', 'P40'), Shift(lambda s, a, k: app('shr', (a.val(), C(k)))))
    add('divAssign', B, AR + ('P06',), Div('assign'))
    add('divideAssignAndReminder', (BIG_, BIG_), AR + ('P06',), Div('divrem'))
    add('modAssignAndQuotient', (BIG_, BIG_), AR + ('P06',), Div('modquo'))
    add('div', (BIG_,) * 4, AR + ('P06',), Div('static'))
    add('divAssign', ('long',), AR + ('P06',), DivI64('assign'))
    add('divideAssignAndReminder', ('long', BIG_), AR + ('P06',), DivI64('divrem'))
    add('modAssignAndQuotient', ('long', BIG_), AR + ('P06',), DivI64('modquo'))
    add('div', (BIG_, BIG_, BIG_, 'long'), AR + ('P06',), DivI64('static'))
    add('mul', (BIG_,) * 3, AR, Mul3())
    add('cmp', B, ('P04',), Cmp())
    one = lambda p, v: [((p,), v)]
    tf = lambda p: [((('==', p),), ONE), ((('!=', p),), ZERO)]
    add('isZero', (), ('P02', 'P04'), Query(lambda s, a, x: tf(a.val())))
    add('isOne', (), ('P02', 'P04'), Query(lambda s, a, x: tf(a.val() - ONE)))
    add('isNegOne', (), ('P02', 'P04'), Query(lambda s, a, x: tf(a.val() + ONE)))
    par = lambda a: app('and', (a.val(), ONE))
    add('isOdd', (), ('P02', 'P04'), Query(lambda s, a, x: [((), par(a))]))
    add('isEven', (), ('P02', 'P04'), Query(lambda s, a, x: [((), ONE - par(a))]))
    add('getU32', ('unsigned long',), ('P42', 'P03'), Query(lambda s, a, x: [((), app('u32', (a.val(), C(x))))], args=(0, 1, 2, 3, 7)))
    add('toU64', (), ('P42', 'P03'), Query(lambda s, a, x: [((), app('u64', (a.val(),)))]))
    add('getMagU32Count', (), ('P02',), Query(lambda s, a, x: [((), C(len(a.words)))]))
    import core2
    core2.more(F, add)
    return out, miss
