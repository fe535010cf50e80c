"""Abstract interpretation above the integer core for the expression engine: value-level integers (valmodel) plus models of strings
as sequences of abstract characters, vectors, callables, promises and the symbol table.

A std::string holds Opq('txt', characters), a string_view Opq('sv', (txt, first character or None)); a pointer to characters is a
location inside a character array whose bounds are known, so that reads outside it are seen."""
import sys
from valmodel import *
import wordmodel, stdmap
from wordmodel import get_elems, set_size, elem, vsize

sys.setrecursionlimit(60000)
EX = NS + 'infixExpr::'

class ExprEngine(ValEngine):
    PEEL = 400
    MAXDET = 2000
    MAXDEPTH = 600
    vec_default = True
    def __init__(self, F, level='impl', **kw):
        kw.setdefault('max_steps', 4000000); kw.setdefault('cap', 20000)
        super().__init__(F, level, **kw)
        T = {k: v for k, v in wordmodel.TAB.items() if k.startswith(('std::vector::', 'std::reverse_iterator', '__gnu_cxx', 'std::next', 'std::prev', 'std::distance'))}
        stdmap.install(T)
        self.table.update(T)
        self.table.update(ETAB)
        for P in (IMPL, BI):
            for nm in (P.split('::')[-1], 'fromString', 'assign'):
                if P + '::' + nm in self.table: self.table[P + '::' + nm] = text_arg(self.table[P + '::' + nm])
        self.hooks['staticlocal'] = first_value
    def recursive(self, fr, fn):
        n = 0
        while fr:
            n += fr.fn['id'] == fn['id']
            fr = fr.caller
        return n >= 60
    def inline(self, st, fr, fn, this, args, node, caps=None):
        n, f, first = 0, fr, None
        while f:
            if f.fn['id'] == fn['id']: n += 1; first = f
            f = f.caller
        if n >= 25:          # the same call in the same state as one that is still running never ends
            key = (this, tuple(args), frozenset((k, v) for k, v in st.mem.items() if not (k.base and isinstance(k.base[0], tuple) and len(k.base[0]) >= len(first.id))))
            f = fr
            while f:
                if f.fn['id'] == fn['id'] and f.caller and getattr(f.caller, 'entry', None) == key:
                    self.alarm('no-progress', fr, node, 'the call repeats a call that is still running, with the same state: the recursion never ends')
                    return []
                f = f.caller
            fr.entry = key
        return super().inline(st, fr, fn, this, args, node, caps)
    def stuck(self, st, fr, head, n, det):
        """a loop that came back to a state it was in before, or keeps running without any decision, never ends"""
        b = fr.pre.blocks[head]
        nd = next((fr.pre.nodes[e] for e in b['e']), None) or (fr.pre.nodes[b['t']] if b.get('t') is not None else None)
        self.alarm('no-progress', fr, nd or {'l': fr.fn['l'], 'id': 0}, 'the loop makes no progress: after %d rounds it is in a state it was in before' % n if not det else 'the loop is still running after %d rounds on a text of fixed length' % n)
    def quiet_oob(self, fr): return False
    def oob(self, st, fr, node, i, n, what):
        self.alarm('element-bounds', fr, node, 'element %s of a vector of %d is accessed' % (i, n))
    def read(self, st, loc, t, fr=None, node=None):
        if isinstance(loc, Loc) and loc.base and loc.base[0] in ('chars', 'str'):
            r = self.char_at(st, loc, fr, node)
            if r is not None: return r
        return super().read(st, loc, t, fr, node)
    def x_CXXStdInitializerListExpr(self, st, fr, n):
        v = self.val(st, fr, n['c'][0])
        while isinstance(v, Loc) and isinstance(st.mem.get(v), Loc) and not self.subtree(st, v)[1:]: v = st.mem[v]
        if isinstance(v, Loc):
            t = self.node(fr, n['c'][0]).get('t', '')
            m = re.search(r'\[(\d+)\]$', t)
            if m: st.ghost[('il', v)] = int(m.group(1))
        self.put(st, fr, n, v)
    def node(self, fr, i): return fr.pre.nodes[i]
    def char_at(self, st, loc, fr, node):
        i = loc.path[-1].const() if loc.path and isinstance(loc.path[-1], Poly) else (0 if not loc.path else None)
        if i is None: return None
        if loc.base[0] == 'str':
            t = loc.base[1]
            return C(ord(t[i])) if 0 <= i < len(t) else (ZERO if i == len(t) else fresh('char', -128, 127, imp=True))
        self.obl['character'] += 1
        v = st.mem.get(Loc(loc.base, (C(i),)))
        if v is None:
            n = st.ghost.get(('len', loc.base))
            if fr is not None and node is not None:
                self.alarm('text-bounds', fr, node, 'character %d of a text of %s is read' % (i, n))
            return fresh('char', -128, 127, imp=True)
        return v

def first_value(eng, st, fr, n, d, dd):
    """a static local holds the value it was initialised with (the hooks and the symbol table are not replaced)"""
    loc, _ = eng.declloc(st, fr, d['d'])
    if st.ghost.get(('sl', loc)): return
    st.ghost[('sl', loc)] = True
    if st.ghost.get('si') and st.ghost['si'][-1][0] == loc: st.ghost['si'] = st.ghost['si'][:-1]
    if d.get('init') is None: return
    v = eng.val(st, fr, d['init'])
    if isinstance(v, Loc) and (is_class(dd['t']) or dd['t'].endswith(']')): eng.copy_tree(st, v, loc); eng.drop_temp(st, v, fr)
    else: st.mem[loc] = v

# ---------------------------------------------------------------- characters and strings
ETAB = {}
def E(*names):
    def d(f):
        def h(eng, st, fr, fn, this, args, node):
            r = f(eng, st, fr, fn, this, args, node)
            if isinstance(r, list) or r is NotImplemented: return r
            return [(st, r)]
        for n in names: ETAB[n] = h
        return h
    return d

def arr(st, key, chars, nul):
    """character array holding chars; -> pointer to the first"""
    base = ('chars', key)
    for k in [k for k in st.mem if k.base == base]: del st.mem[k]
    for i, c in enumerate(chars): st.mem[Loc(base, (C(i),))] = c
    if nul: st.mem[Loc(base, (C(len(chars)),))] = ZERO
    st.ghost[('len', base)] = len(chars)
    return Loc(base, (ZERO,))

def txt(eng, st, a):
    """characters of a string, view or literal; None if unknown"""
    v = a
    if isinstance(a, Loc):
        if a.base and a.base[0] == 'str' and not (a.path and a.path[-1] != ZERO): return tuple(C(ord(c)) for c in a.base[1])
        v = st.mem.get(a)
        if v is None: v = eng.objval(st, a)
    if isinstance(v, Opq) and v.tag == 'sv': v = v.args[0]
    if isinstance(v, Opq) and v.tag == 'txt': return tuple(v.args)
    if isinstance(v, Opq) and v.tag == 'emptystr': return ()
    return None

def mk(chars): return Opq('txt', tuple(chars))

def ptr_text(eng, st, p, n, fr, node):
    """characters of an array from pointer p: n of them, or up to the terminator"""
    if isinstance(p, Opq) and p.tag == 'cstr': 
        t = txt(eng, st, p.args[0]); return t if n is None or t is None else t[:n]
    if not isinstance(p, Loc): return None
    if p.base and p.base[0] == 'str':
        t = p.base[1]; o = p.path[-1].const() if p.path and isinstance(p.path[-1], Poly) else 0
        t = t[o:]
        if n is not None and n > len(t) + 1 or o < 0: eng.alarm('text-bounds', fr, node, '%d characters of a text of %d are read' % (n, len(t)))
        return tuple(C(ord(c)) for c in (t if n is None else t[:n]))
    if not (p.path and isinstance(p.path[-1], Poly)): p = Loc(p.base, p.path + (ZERO,))     # an array
    o = p.path[-1].const()
    if o is None: return None
    out = []
    i = o
    while n is None or i - o < n:
        if n is None and p.base and p.base[0] == 'chars' and Loc(p.base, p.path[:-1] + (C(i),)) not in st.mem:
            eng.alarm('text-bounds', fr, node, 'the end of a text of %s characters is looked for behind its last character' % st.ghost.get(('len', p.base)))
            return None
        c = eng.read(st, Loc(p.base, p.path[:-1] + (C(i),)), 'char', fr, node)
        if not isinstance(c, Poly): return None
        if n is None and c == ZERO: break
        if n is None and c.const() is None and st.bounds(c)[0] is not None and not definitely_nonzero(st, c): return None
        out.append(c); i += 1
        if i - o > 4096: return None
    return tuple(out)

def definitely_nonzero(st, c):
    return st.cmp0('!=', c) is True

def is_sv(t): return 'basic_string_view' in t
def is_str(t): return 'basic_string<' in t or t.endswith('basic_string')

def from_args(eng, st, fr, fn, args, node):
    """text built by a string constructor / assign / append with these arguments"""
    ps = [strip_ref(p) for p in fn.get('p', [])]
    if not args: return ()
    a, t = args[0], ps[0]
    def num(i):
        v = args[i]
        if isinstance(v, Loc): v = eng.read(st, v, 'unsigned long')
        return v.const() if isinstance(v, Poly) else None
    if is_ptr(t) or t.endswith("]"):
        n = None
        if len(args) > 1 and rng(ps[1]) is not None:
            n = num(1)
            if n is None: return None
        elif len(args) > 1 and is_ptr(ps[1]) and isinstance(args[1], Loc) and isinstance(a, Loc):
            d = eng.ptrdiff(args[1], a)
            n = d.const() if isinstance(d, Poly) else None
            if n is None: return None
        return ptr_text(eng, st, a, n, fr, node)
    if rng(t) is not None and len(args) > 1 and rng(ps[1]) is not None:
        n = num(0); c = args[1]
        if n is None or not isinstance(c, Poly): return None
        return (c,) * n
    if rng(t) is not None and len(args) == 1:
        return (a,) if isinstance(a, Poly) else None
    r = txt(eng, st, a)
    if r is not None and len(args) > 1 and rng(ps[1]) is not None:
        i = num(1); n = num(2) if len(args) > 2 and rng(ps[2]) is not None else None
        if i is None: return None
        r = r[i:] if n is None else r[i:i + n]
    return r

@E('std::basic_string::basic_string', 'std::basic_string::operator=', 'std::basic_string::assign')
def s_ctor(eng, st, fr, fn, this, args, node):
    r = from_args(eng, st, fr, fn, args, node)
    moved = args and fn['p'][0].rstrip().endswith('&&') and isinstance(args[0], Loc)
    eng.kill_tree(st, this)
    st.mem[this] = mk(r) if r is not None else Opq('str?', (fresh('str', 0, BIG, imp=True),))
    if moved and args[0] != this: st.mem[args[0]] = mk(())
    return this
@E('std::basic_string::~basic_string')
def s_dtor(eng, st, fr, fn, this, args, node): return ZERO
@E('std::basic_string::push_back', 'std::basic_string::append', 'std::basic_string::operator+=')
def s_push(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this); a = from_args(eng, st, fr, fn, args, node)
    st.mem[this] = mk(r + a) if r is not None and a is not None else Opq('str?', (fresh('str', 0, BIG, imp=True),))
    return this
@E('std::operator+')
def s_plus(eng, st, fr, fn, this, args, node):
    xs = []
    for a, p in zip(args, fn['p']):
        p = strip_ref(p)
        if is_ptr(p): r = ptr_text(eng, st, a, None, fr, node)
        elif rng(p) is not None: r = (a,) if isinstance(a, Poly) else None
        else: r = txt(eng, st, a)
        if r is None: return NotImplemented
        xs += r
    loc = tmp(fr, node); st.mem[loc] = mk(xs); return loc
@E('std::basic_string::size', 'std::basic_string::length', 'std::basic_string_view::size', 'std::basic_string_view::length')
def s_size(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this)
    return C(len(r)) if r is not None else fresh('len', 0, 2 ** 62, imp=True)
@E('std::basic_string::empty', 'std::basic_string_view::empty')
def s_empty(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this)
    return C(int(not r)) if r is not None else fresh('b', 0, 1, imp=True)
@E('std::basic_string::clear')
def s_clear(eng, st, fr, fn, this, args, node): st.mem[this] = mk(()); return ZERO
@E('std::basic_string::reserve', 'std::basic_string::shrink_to_fit')
def s_res(eng, st, fr, fn, this, args, node): return ZERO
@E('std::basic_string::c_str', 'std::basic_string::data')
def s_data(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this)
    if r is None: return NotImplemented
    return arr(st, (this.base, this.path) if isinstance(this, Loc) else ('v', node['id']), r, True)
def view_parts(st, this):
    v = st.mem.get(this) if isinstance(this, Loc) else this
    return v if isinstance(v, Opq) and v.tag == 'sv' else None
@E('std::basic_string_view::data')
def v_data(eng, st, fr, fn, this, args, node):
    v = view_parts(st, this)
    if v is not None and len(v.args) > 1 and isinstance(v.args[1], Loc): return v.args[1]
    r = txt(eng, st, this)
    if r is None: return NotImplemented
    return arr(st, ('view', this.base, this.path) if isinstance(this, Loc) else ('v', node['id']), r, False)
@E('std::basic_string::operator basic_string_view', 'std::basic_string::operator std::basic_string_view')
def s_conv(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this)
    if r is None: return NotImplemented
    loc = tmp(fr, node); st.mem[loc] = Opq('sv', (mk(r), arr(st, (this.base, this.path), r, True)))
    return loc
@E('std::basic_string_view::basic_string_view', 'std::basic_string_view::operator=')
def v_ctor(eng, st, fr, fn, this, args, node):
    ps = [strip_ref(p) for p in fn.get('p', [])]
    if not args: st.mem[this] = Opq('sv', (mk(()), ZERO)); return this
    a = args[0]
    if is_ptr(ps[0]):
        n = None
        if len(args) > 1:
            x = args[1] if isinstance(args[1], Poly) else eng.read(st, args[1], 'unsigned long')
            n = x.const() if isinstance(x, Poly) else None
            if n is None: return NotImplemented
        r = ptr_text(eng, st, a, n, fr, node)
        if r is None: return NotImplemented
        p = a
        if isinstance(p, Loc) and p.base and p.base[0] == 'str': p = Loc(p.base, p.path if p.path else (ZERO,))
        st.mem[this] = Opq('sv', (mk(r), p if isinstance(p, Loc) else ZERO))
        return this
    v = view_parts(st, a)
    if v is not None: st.mem[this] = v; return this
    r = txt(eng, st, a)
    if r is None: return NotImplemented
    st.mem[this] = Opq('sv', (mk(r), ZERO))
    return this
@E('std::basic_string::operator[]', 'std::basic_string_view::operator[]', 'std::basic_string::at', 'std::basic_string_view::at',
   'std::basic_string::front', 'std::basic_string::back', 'std::basic_string_view::front', 'std::basic_string_view::back')
def s_idx(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this)
    if r is None: return NotImplemented
    view = view_parts(st, this) is not None
    if fn['n'] == 'front': i = 0
    elif fn['n'] == 'back': i = len(r) - 1
    else:
        p = args[0] if isinstance(args[0], Poly) else eng.read(st, args[0], 'unsigned long')
        i = p.const() if isinstance(p, Poly) else None
        if i is None: return NotImplemented
    if not 0 <= i < len(r):
        if fn['n'] == 'at': return []
        if not (fn['n'] == 'operator[]' and i == len(r) and not view):
            eng.alarm('text-bounds', fr, node, 'character %d of a text of %d is read' % (i, len(r)))
    if view:
        v = view_parts(st, this)
        base = v.args[1] if len(v.args) > 1 and isinstance(v.args[1], Loc) else arr(st, ('view', this.base, this.path), r, False)
    else: base = arr(st, (this.base, this.path), r, True)
    return Loc(base.base, base.path[:-1] + (base.path[-1] + C(i),))
def each_char(st, c, ks):
    """states in which the abstract character c is (True) or is not (False) one of the constants ks"""
    out, rest = [], st.copy()
    rest.ghost['#c'] = c
    for k in ks:
        s = rest.copy()
        try:
            s.assume('==', s.ghost['#c'] - C(k)); del s.ghost['#c']; out.append((s, True))
        except Infeasible: pass
        try: rest.assume('!=', rest.ghost['#c'] - C(k))
        except Infeasible: return out
    del rest.ghost['#c']
    out.append((rest, False))
    return out
def find(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this)
    if r is None: return NotImplemented
    p0 = strip_ref(fn['p'][0])
    if rng(p0) is not None: set_ = [args[0].const()] if isinstance(args[0], Poly) else [None]
    else:
        t = ptr_text(eng, st, args[0], None, fr, node) if is_ptr(p0) else txt(eng, st, args[0])
        if t is None: return NotImplemented
        if fn['n'] in ('find', 'rfind') and len(t) != 1: return NotImplemented
        set_ = [c.const() for c in t]
    if None in set_: return NotImplemented
    last = fn['n'] in ('find_last_of', 'rfind', 'find_last_not_of')
    pos = args[1].const() if len(args) > 1 and isinstance(args[1], Poly) else (len(r) if last else 0)
    if pos is None: return NotImplemented
    neg = 'not' in fn['n']
    idx = list(range(min(pos, len(r) - 1), -1, -1)) if last else list(range(pos, len(r)))
    work, out = [st], []
    st.ghost['#t'] = mk(r)
    for i in idx:
        nxt = []
        for s in work:
            for s2, y in each_char(s, s.ghost['#t'].args[i], set_):
                if y != neg: del s2.ghost['#t']; out.append((s2, C(i)))
                else: nxt.append(s2)
        work = nxt
    for s in work:
        del s.ghost['#t']; out.append((s, C(2 ** 64 - 1)))
    return out
for _c in ('std::basic_string::', 'std::basic_string_view::'):
    for _n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'): ETAB[_c + _n] = find
@E('std::basic_string_view::substr', 'std::basic_string::substr')
def v_substr(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, this)
    xs = [a.const() if isinstance(a, Poly) else None for a in args]
    if r is None or None in xs: return NotImplemented
    i = xs[0] if xs else 0; n = xs[1] if len(xs) > 1 else len(r)
    if i > len(r): return []
    loc = tmp(fr, node)
    t = mk(r[i:i + n])
    v = view_parts(st, this)
    if v is None: st.mem[loc] = t
    else:
        p = v.args[1] if len(v.args) > 1 else ZERO
        st.mem[loc] = Opq('sv', (t, Loc(p.base, p.path[:-1] + (p.path[-1] + C(i),)) if isinstance(p, Loc) else ZERO))
    return loc
@E('std::basic_string_view::remove_prefix', 'std::basic_string_view::remove_suffix')
def v_rem(eng, st, fr, fn, this, args, node):
    v = view_parts(st, this); r = txt(eng, st, this); n = args[0].const() if isinstance(args[0], Poly) else None
    if v is None or r is None or n is None: return NotImplemented
    if n > len(r): eng.alarm('text-bounds', fr, node, '%d characters are removed from a text of %d' % (n, len(r))); return []
    p = v.args[1] if len(v.args) > 1 else ZERO
    if fn['n'] == 'remove_suffix': st.mem[this] = Opq('sv', (mk(r[:len(r) - n]), p))
    else: st.mem[this] = Opq('sv', (mk(r[n:]), Loc(p.base, p.path[:-1] + (p.path[-1] + C(n),)) if isinstance(p, Loc) else ZERO))
    return ZERO
@E('strlen', 'std::strlen', '__builtin_strlen', 'std::char_traits::length')
def c_len(eng, st, fr, fn, this, args, node):
    r = ptr_text(eng, st, args[0], None, fr, node)
    return C(len(r)) if r is not None else fresh('len', 0, 2 ** 62, imp=True)
@E('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove')
def c_cpy(eng, st, fr, fn, this, args, node):
    n = args[2].const() if isinstance(args[2], Poly) else None
    if n is None: return NotImplemented
    r = ptr_text(eng, st, args[1], n, fr, node)
    d = args[0]
    if r is None or not isinstance(d, Loc): return NotImplemented
    if not d.path or not isinstance(d.path[-1], Poly): d = Loc(d.base, d.path + (ZERO,))
    for i, c in enumerate(r): st.mem[Loc(d.base, d.path[:-1] + (d.path[-1] + C(i),))] = c
    return args[0]

def between(st, p, lo, hi):
    """[(state, inside?)] for lo <= p <= hi; p is kept in ghost '#p'"""
    out = []
    st.ghost['#p'] = p
    for conds, y in ((((('<=', C(lo) - p), ('<=', p - C(hi)))), True), ((('<=', p - C(lo - 1)),), False), ((('<=', C(hi + 1) - p),), False)):
        s = st.copy()
        try:
            for op, q in conds: s.assume(op, q)
            out.append((s, y))
        except Infeasible: pass
    return out
def cclass(ranges):
    def h(eng, st, fr, fn, this, args, node):
        if not isinstance(args[0], Poly): return NotImplemented
        out, work = [], []
        st.ghost['#q'] = args[0]
        cuts = sorted({x for lo, hi in ranges for x in (lo, hi + 1)})
        lo_ = None
        bounds = [None] + cuts + [None]
        for a, b in zip(bounds, bounds[1:]):
            s = st.copy(); p = args[0]
            try:
                if a is not None: s.assume('<=', C(a) - p)
                if b is not None: s.assume('<=', s.ghost['#q'] - C(b - 1))
            except Infeasible: continue
            x = a if a is not None else (b - 1)
            inside = any(l <= x <= h_ for l, h_ in ranges) and a is not None
            out.append((s, C(int(inside))))
        # neighbouring outcomes of the same kind stay separate states
        for s, _ in out: s.ghost.pop('#q', None)
        return out
    return h
for _n, _r in (('isdigit', [(48, 57)]), ('isalpha', [(65, 90), (97, 122)]), ('isalnum', [(48, 57), (65, 90), (97, 122)]),
               ('isspace', [(9, 13), (32, 32)]), ('isupper', [(65, 90)]), ('islower', [(97, 122)]), ('isxdigit', [(48, 57), (65, 70), (97, 102)])):
    ETAB[_n] = ETAB['std::' + _n] = cclass(_r)
def ccase(lo, hi, d):
    def h(eng, st, fr, fn, this, args, node):
        if not isinstance(args[0], Poly): return NotImplemented
        out = []
        for s, y in between(st, args[0], lo, hi):
            p = s.ghost.pop('#p')
            out.append((s, p + C(d) if y else p))
        return out
    return h
ETAB['tolower'] = ETAB['std::tolower'] = ccase(65, 90, 32)
ETAB['toupper'] = ETAB['std::toupper'] = ccase(97, 122, -32)

# text to number: constant digits are a constant, abstract ones an uninterpreted term over the characters
def const_text(chars):
    cs = [c.const() for c in chars]
    return None if None in cs else ''.join(chr(c % 256) for c in cs)
def parse_const(t, radix):
    d = '0123456789abcdefghijklmnopqrstuvwxyz'[:radix]
    b = t[1:] if t[:1] in '+-' else t
    if not b or any(c.lower() not in d for c in b): return None
    v = int(b, radix)
    return -v if t[:1] == '-' else v
def text_arg(f):
    def h(eng, st, fr, fn, this, args, node):
        ps = fn.get('p', [])
        if not (ps and 'string_view' in ps[0]): return f(eng, st, fr, fn, this, args, node)
        r = txt(eng, st, args[0]); x = args[1] if len(args) > 1 else C(10)
        okp = args[2] if len(args) > 2 else ZERO
        if r is None or not isinstance(x, Poly): return f(eng, st, fr, fn, this, args, node)
        def done(s, v):
            if v is not None:
                eng.setv(s, this, v); s.mem[STATUS] = C(CODES.get('SUCCESS', 0))
            else: s.mem[STATUS] = fresh('parsecode', 1, 2 ** 32 - 1)
            if isinstance(okp, Loc): s.mem[okp] = C(int(v is not None))
            return s, this
        t = const_text(r)
        if t is not None and x.const() is not None:
            if not 2 <= x.const() <= 36: return [done(st, None)]
            hk = eng.hooks.get('literal')
            v = hk(st, t, x.const()) if hk else None
            if v is None:
                v = parse_const(t, x.const())
                if v is not None: v = C(v)
            return [done(st, v)]
        if len(r) > 6: return f(eng, st, fr, fn, this, args, node)
        return [done(s, v) for s, v in sym_text(st, r, x)]
    return h
def split(st, conds):
    """copy of the state with the conditions assumed (they are functions of the state); None if impossible"""
    s = st.copy()
    try:
        for op, p in conds(s): s.assume(op, p)
    except Infeasible: return None
    return s
def sym_text(st, chars, radix):
    """[(state, value or None)] of a text with abstract characters in a possibly abstract radix"""
    st.ghost['#t'] = (mk(chars), radix)
    bad, work = [], []
    for conds in (lambda s: [('<=', s.ghost['#t'][1] - C(1))], lambda s: [('<=', C(37) - s.ghost['#t'][1])]):
        s = split(st, conds)
        if s is not None: bad.append(s)
    s = split(st, lambda s: [('<=', C(2) - s.ghost['#t'][1]), ('<=', s.ghost['#t'][1] - C(36))])
    if s is not None: work.append((s, 1, 0))
    if not chars: return [(s, None) for s in bad + [w[0] for w in work]]
    if len(chars) > 1:
        nw = []
        for s, _, _ in work:
            for op, sg, i in ((43, 1, 1), (45, -1, 1), (None, 1, 0)):
                s2 = split(s, lambda s: [('==', s.ghost['#t'][0].args[0] - C(op))] if op else [('!=', s.ghost['#t'][0].args[0] - C(43)), ('!=', s.ghost['#t'][0].args[0] - C(45))])
                if s2 is not None: nw.append((s2, sg, i))
        work = nw
    good = []
    while work:
        s, sg, i = work.pop()
        if i == len(chars):
            good.append((s, sg)); continue
        cuts = [(48, 57, 48, 0), (97, 122, 87, 0), (65, 90, 55, 0), (-BIG, 47, 0, 1), (58, 64, 0, 1), (91, 96, 0, 1), (123, BIG, 0, 1)]
        for lo, hi, d, inv in cuts:
            ch = lambda s: s.ghost['#t'][0].args[i]
            def cls(s):
                return ([('<=', C(lo) - ch(s))] if lo > -BIG else []) + ([('<=', ch(s) - C(hi))] if hi < BIG else [])
            s2 = split(s, cls)
            if s2 is None: continue
            if inv: bad.append(s2); continue
            s3 = split(s2, lambda s: [('<=', s.ghost['#t'][1] - (ch(s) - C(d)))])
            if s3 is not None: bad.append(s3)
            s3 = split(s2, lambda s: [('<=', (ch(s) - C(d)) - s.ghost['#t'][1] + C(1))])
            if s3 is not None:
                s3.ghost['#d'] = s3.ghost.get('#d', ()) + (ch(s3) - C(d),)
                work.append((s3, sg, i + 1))
    out = []
    for s, sg in good:
        v, R = ZERO, s.ghost['#t'][1]
        for d in s.ghost.get('#d', ()): v = v * R + d
        out.append((s, v if sg > 0 else -v))
    out += [(s, None) for s in bad]
    for s, _ in out: s.ghost.pop('#d', None); s.ghost.pop('#t', None)
    return out

# ---------------------------------------------------------------- vectors of objects
@E('std::vector::push_back', 'std::deque::push_back')
def vec_push(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    a = args[0]
    p = fn['p'][0]
    set_size(st, this, n + 1)
    put_any(eng, st, elem(this, n), a, p)
    return ZERO
def put_any(eng, st, d, a, p):
    t = strip_ref(p)
    if isinstance(a, Loc) and not is_class(t) and (is_ref(p)): a = eng.read(st, a, t)
    if isinstance(a, Loc) and is_class(t):
        eng.copy_tree(st, a, d)
        v = st.mem.get(d)
    else:
        eng.kill_tree(st, d); st.mem[d] = a
@E('std::vector::emplace_back', 'std::deque::emplace_back')
def vec_emplace(eng, st, fr, fn, this, args, node):
    q = fn.get('cls') or fn['q']
    t = wordmodel.elt(fn)
    n = get_elems(eng, st, this)
    set_size(st, this, n + 1)
    d = elem(this, n)
    eng.kill_tree(st, d)
    if t is None or rng(t) is not None or is_ptr(t):
        if args: put_any(eng, st, d, args[0], fn['p'][0])
        else: st.mem[d] = ZERO
        return d
    if 'basic_string<' in t and t.startswith('std::basic_string<'):
        r = from_args(eng, st, fr, fn, args, node)
        st.mem[d] = mk(r) if r is not None else Opq('str?', (fresh('str', 0, BIG, imp=True),))
        return d
    return wordmodel.construct(eng, st, fr, node, t, d, list(args), fn['p'])
@E('std::vector::insert', 'std::vector::emplace')
def vec_insert(eng, st, fr, fn, this, args, node):
    t = wordmodel.elt(fn)
    if t in wordmodel.WIDTH or len(args) != 2: return wordmodel.TAB['std::vector::insert'](eng, st, fr, fn, this, args, node)
    it = wordmodel.obj(st, args[0])
    i = it.idx.const() if isinstance(it, Iter) else None
    n = get_elems(eng, st, this)
    if i is None or not 0 <= i <= n: raise Budget('insert position')
    keep = tmp(fr, node, 'ins')
    put_any(eng, st, keep, args[1], fn['p'][1])
    for k in range(n - 1, i - 1, -1):
        d = elem(this, k + 1)
        eng.kill_tree(st, d); eng.copy_tree(st, elem(this, k), d)
    set_size(st, this, n + 1)
    eng.kill_tree(st, elem(this, i)); eng.copy_tree(st, keep, elem(this, i)); eng.kill_tree(st, keep)
    return Iter(this, C(i))
@E('std::reverse')
def rev(eng, st, fr, fn, this, args, node):
    a, b = wordmodel.obj(st, args[0]), wordmodel.obj(st, args[1])
    if not (isinstance(a, Iter) and isinstance(b, Iter)) or a.idx.const() is None or b.idx.const() is None: return NotImplemented
    i, j = a.idx.const(), b.idx.const() - 1
    t = tmp(fr, node, 'rev')
    while i < j:
        x, y = elem(a.base, i), elem(a.base, j)
        eng.kill_tree(st, t); eng.copy_tree(st, x, t); eng.kill_tree(st, x); eng.copy_tree(st, y, x); eng.kill_tree(st, y); eng.copy_tree(st, t, y)
        i += 1; j -= 1
    eng.kill_tree(st, t)
    return ZERO
@E('std::deque::back')
def dq_back(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    if n == 0: eng.oob(st, fr, node, -1, 0, 'read'); return []
    return elem(this, n - 1)
for _n in ('size', 'empty', 'operator[]', 'at', 'front', 'clear', 'pop_back', 'begin', 'end', '~deque', 'deque'):
    ETAB['std::deque::' + _n] = wordmodel.TAB.get('std::vector::' + _n.replace('deque', 'vector'))
@E('std::vector::operator=')
def vec_asg(eng, st, fr, fn, this, args, node):
    if 'initializer_list' in fn['p'][0]:
        a = args[0]
        vs = ilist(eng, st, a)
        if vs is None: raise Budget('initializer list')
        eng.kill_tree(st, this)
        set_size(st, this, len(vs))
        for i, v in enumerate(vs):
            if isinstance(v, Loc) and (v in st.mem or eng.subtree(st, v)) and not is_ptr(wordmodel.elt(fn) or ''): eng.copy_tree(st, v, elem(this, i))
            else: st.mem[elem(this, i)] = v
        return this
    return wordmodel.TAB['std::vector::operator='](eng, st, fr, fn, this, args, node)
def ilist(eng, st, a):
    if isinstance(a, Loc) and ('il', a) in st.ghost:
        return [st.mem[Loc(a.base, a.path + (C(i),))] if Loc(a.base, a.path + (C(i),)) in st.mem else Loc(a.base, a.path + (C(i),)) for i in range(st.ghost[('il', a)])]
    v = st.mem.get(a) if isinstance(a, Loc) and a in st.mem else a
    if isinstance(v, Opq) and v.tag in ('ilist', 'list'): return list(v.args)
    if isinstance(a, Loc):
        n = st.mem.get(Loc(a.base, a.path + ('#n',)))
        ks = sorted((k for k in eng.subtree(st, a) if len(k.path) == len(a.path) + 1 and isinstance(k.path[-1], Poly)), key=lambda k: k.path[-1].const())
        return [st.mem[k] for k in ks]
    return None

# ---------------------------------------------------------------- callables
@E('std::function::operator()')
def f_call(eng, st, fr, fn, this, args, node):
    v = st.mem.get(this) if isinstance(this, Loc) else this
    if fr.fn['q'] in (NS + 'expr::eval', NS + 'expr::peval') and isinstance(v, (FnRef, Lam)):
        st.ghost['evaluated'] = True
        if eng.hooks.get('noeval'):
            loc = tmp(fr, node); st.mem[loc] = fresh('value'); return loc
    if isinstance(v, FnRef): return eng.call(st, fr, v.fn.f, None, list(args), node)
    if isinstance(v, Lam): return eng.lam_call(st, fr, v, list(args), node)
    if isinstance(v, Poly) and v == ZERO:
        eng.alarm('null-callable', fr, node, 'an empty callable is called'); return []
    if isinstance(v, Opq) and v.tag == 'native':
        vs = []
        a = args[0]
        n = vsize(st, a) if isinstance(a, Loc) else None
        if n is None: raise Budget('native call')
        for i in range(n): vs.append(eng.getv(st, elem(a, i)))
        loc = tmp(fr, node)
        st.mem[loc] = r = app(('native', v.args[0]), tuple(vs))
        st.ghost['calls'] = st.ghost.get('calls', ()) + ((v.args[0], tuple(vs), r),)
        return loc
    h = eng.hooks.get('callable')
    if h:
        r = h(eng, st, fr, v, args, node, this)
        if r is not None: return r
    raise Budget('callable %s' % (v,))

# ---------------------------------------------------------------- symbol table
def symbol(st, name, kind, argc=None):
    """symbol object registered under name"""
    base = ('symbol', name, kind, argc)
    L = Loc(base, ())
    if kind == 'func':
        st.mem[Loc(base, ('func', EX + 'Func::argCount'))] = C(argc)
        st.mem[Loc(base, ('func', EX + 'Func::nativeCall'))] = Opq('native', (name,))
    elif kind == 'value':
        st.mem[Loc(base, ('value',))] = r = app(('const', name), (Opq('name', (name,)),))
        st.ghost[('const', name)] = r
    st.mem[Loc(base, ('#kind',))] = Opq('kind', (kind,))
    return L
def kind_of(q):
    m = re.search(r'::(?:is|as)<(.*)>$', q) or re.search(r'(?:holds_alternative|get|get_if)<([^,]*)', q)
    if not m: return None
    t = m.group(1)
    return 'func' if t.endswith('Func') else 'value' if t.endswith('BigIntegerImpl') else 'mono' if 'monostate' in t else None
def symkind(st, this):
    v = st.mem.get(Loc(this.base, this.path + ('#kind',))) if isinstance(this, Loc) else None
    return v.args[0] if isinstance(v, Opq) else None
@E(EX + 'Variant::is', 'std::holds_alternative')
def var_is(eng, st, fr, fn, this, args, node):
    o = this if this is not None else args[0]
    k, w = symkind(st, o), kind_of(fn['q'])
    if o == ZERO: return null_symbol(eng, st, fr, node)
    if k is None or w is None: return NotImplemented
    return C(int(k == w))
def null_symbol(eng, st, fr, node):
    eng.alarm('null-deref', fr, node, 'an absent symbol is dereferenced'); return []
@E(EX + 'Variant::as', 'std::get')
def var_as(eng, st, fr, fn, this, args, node):
    o = this if this is not None else args[0]
    if o == ZERO: return null_symbol(eng, st, fr, node)
    k, w = symkind(st, o), kind_of(fn['q'])
    if k is None or w is None: return get_tuple(eng, st, fr, fn, this, args, node)
    if k != w:
        eng.alarm('symbol-kind', fr, node, 'a symbol that is a %s is used as a %s' % (k, w)); return []
    return Loc(o.base, o.path + (k,))
def get_tuple(eng, st, fr, fn, this, args, node):
    return TUP['std::get'](eng, st, fr, fn, this, args, node)
TUP = stdmap.install({})
@E('std::variant::index')
def var_index(eng, st, fr, fn, this, args, node):
    k = symkind(st, this)
    return NotImplemented if k is None else C({'mono': 0, 'func': 1, 'value': 2}[k])
@E(NS + 'ObjectManager::get')
def sym_get(eng, st, fr, fn, this, args, node):
    r = txt(eng, st, args[0])
    if r is None: raise Budget('symbol name')
    h = eng.hooks.get('symbols')
    kinds = h(r) if h else (('none', None), ('func', 1), ('value', None), ('mono', None))
    out = []
    name = const_text(r)
    for k, n in kinds:
        s = st.copy()
        s.ghost['lookups'] = s.ghost.get('lookups', ()) + (Opq('lookup', (mk(r), k, n)),)
        out.append((s, ZERO if k == 'none' else symbol(s, name if name is not None else mk(r), k, n)))
    return out

# ---------------------------------------------------------------- things without effect here
@E('std::any::any', 'std::any::operator=', 'std::any::~any', 'std::any::emplace')
def any_(eng, st, fr, fn, this, args, node):
    if this is not None:
        eng.kill_tree(st, this); st.mem[this] = Opq('any', ())
    return this if this is not None else ZERO
@E(NS + 'Status::setContext')
def set_ctx(eng, st, fr, fn, this, args, node): return ZERO
@E('pg::util::stringUtil::format', 'pg::util::stringUtil::__IN_fmtUtil::transToString')
def fmt(eng, st, fr, fn, this, args, node):
    loc = tmp(fr, node); st.mem[loc] = mk(()); return loc
for _n in ('std::operator<<', 'std::basic_ostream::operator<<', 'fflush', 'std::fflush', 'fputs', 'printf', 'fprintf', 'puts', 'std::printf', 'std::puts', 'putchar', 'fputc'):
    ETAB[_n] = lambda eng, st, fr, fn, this, args, node: [(st, args[0] if 'ostream' in (fn.get('r') or '') and this is None and args else (this if this is not None else ZERO))]
