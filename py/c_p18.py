"""P18: the digit/radix tables are consistent for every radix 2..36.  The table accessors are interpreted abstractly with each radix
as a constant (constant propagation through the tables or through whatever computes the entry); text-to-number and
number-to-text conversion are interpreted with each radix constant and the block base, digit count and padding width that
actually meet there are compared (base = radix ** digits, base fits its word type, size estimate >= exact bit length)."""
from common import *
from valmodel import *
import re, math

D = NS + 'detail::'

def const_of(v):
    if isinstance(v, Poly): return v.const()
    return None

def call(F, fn, args, hooks=None, this=None, st=None, tab=None):
    eng = ValEngine(F, 'impl')
    if hooks: eng.hooks.update(hooks)
    if tab: eng.table.update(tab)
    st = st or State()
    st.mem.setdefault(STATUS, ZERO)
    return eng, eng.inline(st, None, fn, this, args, None)

def table_values(ctx, F, name, want):
    """value of the accessor for every radix"""
    fns = fn_by(F, D + name)
    out = {}
    if not fns: return None
    fn = fns[0]
    for r in range(2, 37):
        try:
            eng, ex = call(F, fn, [C(r)])
        except Budget:
            return None
        vals = set()
        for s, v in ex:
            if isinstance(v, Loc): v = s.mem.get(v)
            vals.add(const_of(v))
        ctx.obl += 1
        if len(vals) != 1 or None in vals:
            out[r] = None
        else:
            out[r] = vals.pop()
    return fn, out

def run(ctx):
    F = ctx.F
    n = 0
    d32 = table_values(ctx, F, 'getDigitCountPerU32', 32); b32 = table_values(ctx, F, 'getU32BlockRadix', 32)
    d64 = table_values(ctx, F, 'getDigitCountPerU64', 64); b64 = table_values(ctx, F, 'getU64BlockRadix', 64)
    for dd, bb, w in ((d32, b32, 32), (d64, b64, 64)):
        if not dd or not bb:
            ctx.undec('block tables for %d-bit blocks not found by name' % w); continue
        for r in range(2, 37):
            for f, t in (dd, bb):
                if t[r] is None:
                    k = nrows(F, f)
                    if k is not None and k <= r:
                        ctx.alarm('table-rows', f['file'], f['l'], f['q'], 'table has %d rows, radix %d has none' % (k, r), key='table-rows|' + f['q'])
                    else: ctx.undec('%s(%d)' % (f['q'], r))
            d, b = dd[1][r], bb[1][r]
            if d is None or b is None: continue
            n += 1; ctx.obl += 3
            ctx.sample('radix %d: %d digits per %d-bit block, base %#x = %d**%d' % (r, d, w, b, r, d))
            if d < 1: ctx.alarm('table-digits', dd[0]['file'], dd[0]['l'], dd[0]['q'], 'radix %d: %d digits per block' % (r, d))
            if b != r ** d:
                ctx.alarm('table-base', bb[0]['file'], bb[0]['l'], bb[0]['q'], 'radix %d: block base %#x is not %d**%d = %#x' % (r, b, r, d, r ** d))
            if r ** d >= 2 ** w:
                ctx.alarm('table-fit', bb[0]['file'], bb[0]['l'], bb[0]['q'], 'radix %d: %d**%d does not fit a %d-bit word' % (r, r, d, w))
    # size estimate
    es = fn_by(F, D + 'getBitCountByDigitCount')
    grid = list(range(1, 300)) + [10 ** k for k in range(3, 9)] + [3 * 10 ** 8]
    if es:
        for r in range(2, 37):
            nsym = fresh('digits', 1, 2 ** 40)
            try: eng, ex = call(F, es[0], [nsym, C(r)])
            except Budget: ctx.undec('size estimate, radix %d' % r); continue
            for s, v in ex:
                if not isinstance(v, Poly):
                    ctx.undec('size estimate, radix %d' % r); continue
                n += 1
                ctx.sample('radix %d: estimated bits for n digits: %s' % (r, v))
                for g in grid:
                    try: x = terms.Valuation(s, {next(iter(nsym.syms())): g}).ev(v)
                    except (terms.Unknown, terms.Bad): ctx.undec('size estimate, radix %d' % r); break
                    ctx.obl += 1
                    need = bitlen(r, g)
                    if x < need:
                        ctx.alarm('table-estimate', es[0]['file'], es[0]['l'], es[0]['q'], 'radix %d: %d digits need %d bits, estimate is %d' % (r, g, need, x), key='table-estimate|%d' % r)
                        break
    else:
        ctx.undec('size estimate not found by name')
    n += sum(pmap(ctx, lambda c, r: text_to_number(c, F, r) + number_to_text(c, F, r), list(range(2, 37))))
    n += padding(ctx, F, d64)
    n += padded(ctx, F)
    ctx.cov['table_facts'] = n
    if n < 30: raise AnalysisBroken('radix tables not found')

_bl = {}
def bitlen(r, n):
    """bits of r**n - 1, the largest n-digit number"""
    if n <= 400: return (r ** n - 1).bit_length()
    # exact enough from below: use a 4096-digit block power
    if r not in _bl:
        p = r ** 4096
        _bl[r] = p.bit_length() - 1           # 2**k <= r**4096
    return (_bl[r] * n) // 4096

def nrows(F, fn):
    for d in fn.get('decls', []):
        m = re.search(r'\[(\d+)\]$', d['t'])
        if m and d['k'] == 'staticlocal': return int(m.group(1))
    return None

def text_to_number(ctx, F, r0):
    n = 0
    fns = fn_by(F, IMPL + '::fromString')
    for fn in fns:
        for r in (r0,):
            ev = []
            def fc(eng, st, fr, fn2, this, args, node):
                if len(args) != 4: return NotImplemented
                a, b = args[0], args[1]
                ln = None
                if isinstance(a, Loc) and isinstance(b, Loc) and a.base == b.base and len(a.path) == len(b.path):
                    ln = b.path[-1] - a.path[-1]
                elif isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag and a.args[:-1] == b.args[:-1]:
                    ln = b.args[-1] - a.args[-1]
                ev.append(('chars', ln, args[3], node['l'], fr.fn['q']))
                st.ghost['lastlen'] = ln
                if isinstance(args[2], Loc): st.mem[args[2]] = fresh('block', 0, 2 ** 64 - 1)
                loc = Loc((fr.id, 't', node['id']), ())
                return [(st, loc)]
            def mul(eng, st, fr, fn2, this, args, node):
                m = args[0]
                if not isinstance(m, Poly): m = eng.getv(st, m)
                ev.append(('mul', m, node['l']))
                return [(st, this)]
            T = {'std::from_chars': fc, IMPL + '::mulAssign': mul, IMPL + '::addAssign': lambda eng, st, fr, f2, this, args, node: [(st, this)],
                 'std::basic_string_view::data': lambda eng, st, fr, f2, this, args, node: [(st, Loc(('chars',), (ZERO,)))]}
            st = State(); X = Loc(('X',), ()); st.mem[X] = fresh('a')
            sv = Loc(('sv',), ()); st.mem[sv] = Opq('sv', (Opq('text0', ()),))
            try: eng, ex = call(F, fn, [sv, C(r), ZERO], this=X, st=st, tab=T)
            except Budget as e: ctx.undec('fromString radix %d: %s' % (r, e)); continue
            lens = {const_of(e[1]) for e in ev if e[0] == 'chars'} - {None}
            muls = {const_of(e[1]) for e in ev if e[0] == 'mul'} - {None, 0}
            lines = [e[2] for e in ev if e[0] == 'mul']
            if any(e[0] == 'mul' and const_of(e[1]) is None for e in ev): ctx.undec('fromString radix %d: multiplier not constant' % r)
            rad = {const_of(e[2]) for e in ev if e[0] == 'chars'} - {None}
            ctx.obl += 1
            for x in rad - {r}:
                ctx.alarm('text-radix', fn['file'], ev[0][3], fn['q'], 'digits of a radix-%d text are read in radix %s' % (r, x), key='text-radix')
            # the block length read inside the loop is the constant one
            for m in muls:
                n += 1; ctx.obl += 1
                if lens and all(r ** l != m for l in lens):
                    ctx.alarm('block-agree', fn['file'], lines[0], fn['q'], 'radix %d: blocks of %s digits are combined with multiplier %d' % (r, sorted(lens), m), key='block-agree|%d' % r)
                elif not lens: ctx.undec('fromString radix %d: block length not constant' % r)
            if r in (2, 10, 36): ctx.sample('text to number, radix %d: block lengths %s, multipliers %s' % (r, sorted(lens), sorted(muls)))
    return n

def number_to_text(ctx, F, r0):
    n = 0
    for fn in fn_by(F, IMPL + '::toString'):
        for r in (r0,):
            divs, pads, bufs, zs = [], [], [], []
            def dv(eng, st, fr, f2, this, args, node):
                d = eng.getv(st, args[0])
                divs.append((const_of(d), node['l']))
                a = eng.getv(st, this)
                eng.setv(st, this, fresh('q')); eng.setv(st, args[1], fresh('rem', 0, 2 ** 64 - 1))
                return [(st, this)]
            def lookat(eng, st, fr, fn2, this, args, node):
                for a in args:
                    if isinstance(a, Poly) and a.const() is None:
                        for s in a.syms():
                            d = S.df[s]
                            if d and (d[0] == 'strlen' or 'size' in str(d[0]) or 'length' in str(d[0])) and a.t.get((s,)) == -1:
                                k = a + V(s)
                                if k.const() is not None: pads.append((k.const(), node['l'] if node else '?'))
            eng = ValEngine(F, 'impl')
            old = eng.inline
            def inl(st, fr, f2, this, args, node, *a, **k):
                lookat(eng, st, fr, f2, this, args, node)
                return old(st, fr, f2, this, args, node, *a, **k)
            eng.inline = inl
            oc = eng.call
            eng.hooks['anycall'] = lookat
            eng.table[IMPL + '::divideAssignAndReminder'] = dv
            st = State(); X = Loc(('X',), ()); st.mem[X] = fresh('a'); st.mem[STATUS] = ZERO
            try: eng.inline(st, None, fn, X, [C(r)], None)
            except Budget as e: ctx.undec('toString radix %d: %s' % (r, e)); continue
            D_ = {d for d, _ in divs} - {None}
            P_ = {p for p, _ in pads}
            if r in (2, 10, 36): ctx.sample('number to text, radix %d: block bases %s, padded widths %s' % (r, sorted(D_), sorted(P_)))
            if not D_ or not P_: ctx.undec('toString radix %d: bases %s widths %s' % (r, D_, P_)); continue
            n += 1; ctx.obl += 1
            for d in D_:
                for p in P_:
                    if r ** p != d:
                        ctx.alarm('pad-agree', fn['file'], pads[0][1], fn['q'], 'radix %d: blocks of base %d are padded to %d digits' % (r, d, p), key='pad-agree|%d' % r)
    return n

def padding(ctx, F, d64):
    n = 0
    zs = [v for v in F.vars.values() if v.get('ours') and isinstance(v.get('val'), dict) and re.fullmatch('0{8,}', v['val'].get('str', '') or '')]
    if d64 and zs:
        mx = max((x or 0) for x in d64[1].values())
        for z in zs:
            n += 1; ctx.obl += 1
            L = len(z['val']['str'])
            ctx.sample('padding text %s: %d zeros, at most %d needed' % (z['q'], L, mx - 1))
            if L < mx - 1:
                ctx.alarm('pad-short', z['file'], z['l'], z['q'], 'padding of %d zeros, a block may need %d' % (L, mx - 1))
    return n

def padded(ctx, F):
    """the text of a number of two blocks, with every digit count of one of them: the zeros between them are there"""
    import textcheck
    ws = [f for f in F.byq.get(IMPL + '::toString', []) if 'blocks' in f]
    def one(c, r):
        w = 1
        while r ** (w + 1) < 2 ** 63: w += 1
        for fn in ws:
            for k in (0, 1): textcheck.write(c, fn, r, 1, 2, tuple(None if i == k else (1, 0) for i in range(2)), w)
        return len(ws)
    return sum(pmap(ctx, one, list(range(2, 37))))
