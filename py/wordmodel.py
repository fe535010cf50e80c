"""Word-level model of the standard library below the integer core: vectors, shared pointers, iterators, raw memory.

The code of BigIntegerImpl.cpp and Slice.h itself is interpreted; only std members are modelled.  A vector is an abstract
object with a constant size and one polynomial per element; a shared pointer is Opq('sp', (vector,)); an iterator is
Iter(vector, index)."""
from eng import *
import arith, terms, re, itertools
import valmodel
from valmodel import bq, NS, IMPL, STATUS, CODES, STD, isint, tmp

SIZE = '#n'
VEC = 'vec'

class Undefined(Exception):
    pass

def vsize(st, v):
    n = st.mem.get(Loc(v.base, v.path + (SIZE,)))
    return n.const() if isinstance(n, Poly) else None

def set_size(st, v, n):
    st.mem[Loc(v.base, v.path + (SIZE,))] = C(n)

def elem(v, i):
    return Loc(v.base, v.path + (C(i),))

def is_sp(x):
    return isinstance(x, Opq) and x.tag == 'sp'

class View(tuple):
    """typed view of raw storage: ('view', cell location, cell size, width, byte offset)"""

def mkview(loc, cell, width, off):
    return Opq('view', (loc, C(cell), C(width), off))

WIDTH = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'std::byte': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'void': 0}

def pointee(t):
    t = arith.clean(t)
    return arith.clean(t[:-1]) if t.endswith('*') else None

class WordEngine(Engine):
    PEEL = 48
    MAXDET = 2000
    MAXDEPTH = 40
    def __init__(self, F, **kw):
        super().__init__(F, {}, **kw)
        self.table = dict(STD)
        for k in (NS + 'swap', 'std::unique_ptr::unique_ptr', 'std::make_shared'): self.table.pop(k, None)
        self.table.update(TAB)
        self.hooks['arith'] = check_arith
        self.hooks['divide'] = check_div
        self.hooks['read_opq'] = lambda e, st, v, t, fr, n: e.view_read(st, v, t, fr, n) if v.tag == 'view' else None
        self.stop_recursion = False
        self.contracts = {}
    def intr_prefix(self, q, fn):
        h = self.contracts.get(fn.get('id')) if fn else None
        if h: return h
        b = bq(q)
        h = self.table.get(b)
        if h is None and b.startswith('std::') and b.endswith('::shared_ptr'): h = self.table.get('std::shared_ptr::shared_ptr')
        return h
    def recursive(self, fr, fn):
        n = 0
        while fr:
            if fr.fn['id'] == fn['id']: n += 1
            fr = fr.caller
        return n >= 6
    # ---------------------------------------------------------------- memory
    def cell(self, st, loc):
        """byte size of the elements of the array a location points into"""
        b = loc.base
        if isinstance(b, tuple) and b and b[0] in ('bin', 'malloc'): return 1
        z = st.mem.get(Loc(b, loc.path[:-1] + ('#sz',)))
        return z.const() if isinstance(z, Poly) else 4
    def read(self, st, loc, t, fr=None, node=None):
        if isinstance(loc, Opq) and loc.tag == 'view':
            return self.view_read(st, loc, t, fr, node)
        if isinstance(loc, Loc):
            v = st.mem.get(loc)
            if v is not None:
                b = loc.base
                if isinstance(b, tuple) and b and b[0] in ('bin', 'malloc') and isinstance(v, Poly):
                    return wrap(st, v, t)
                return v
            if loc.path and isinstance(loc.path[-1], Poly) and not is_class(strip_ref(t)):
                c = Loc(loc.base, loc.path[:-1])
                n = vsize(st, c)
                if n is not None:
                    i = loc.path[-1].const()
                    if i is None: raise Budget('symbolic element index')
                    self.obl['element'] += 1
                    if not 0 <= i < n: self.oob(st, fr, node, i, n, 'read')
                    return self.unknown(t, 'oob')
        return super().read(st, loc, t, fr, node)
    def oob(self, st, fr, node, i, n, what):
        if satisfiable(st):
            self.alarm('element-bounds', fr, node if isinstance(node, dict) else None, 'word %d of a buffer of %d words is %s' % (i, n, 'read' if what == 'read' else 'written'))
    def write(self, st, loc, v, fr=None, node=None):
        if isinstance(loc, Opq) and loc.tag == 'view':
            return self.view_write(st, loc, v, fr, node)
        if isinstance(loc, Loc) and loc.path and isinstance(loc.path[-1], Poly):
            i = loc.path[-1].const()
            c = Loc(loc.base, loc.path[:-1])
            n = vsize(st, c)
            if n is not None:
                if i is None: raise Budget('symbolic element index')
                self.obl['element'] += 1
                if not 0 <= i < n:
                    self.oob(st, fr, node, i, n, 'write')
                    return
                st.mem[loc] = v
                return
            if i is not None:
                st.mem[loc] = v
                return
        super().write(st, loc, v, fr, node)
    def byte_at(self, st, loc, cell, off, fr=None, node=None):
        """unsigned byte at constant byte offset off from element loc (loc.path[-1] is the element index)"""
        if loc.path and isinstance(loc.path[-1], Poly):
            i0 = loc.path[-1].const()
            if i0 is None: raise Budget('symbolic element index')
            i, k = divmod(off, cell)
            l = Loc(loc.base, loc.path[:-1] + (C(i0 + i),))
        else:
            l, k = loc, off
            if not 0 <= off < cell: return self.unknown('unsigned char', 'byte')
        t = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[cell]
        v = self.read(st, l, t, fr, node)
        if not isinstance(v, Poly): return self.unknown('unsigned char', 'byte')
        v = wrap(st, v, t)
        if cell == 1: return v
        hi = fdiv(st, v, 256 ** k)
        return hi - fdiv(st, v, 256 ** (k + 1)) * 256
    def view_parts(self, v):
        loc, cell, width, off = v.args
        o = off.const()
        if o is None: raise Budget('symbolic byte offset')
        return loc, cell.const(), width.const(), o
    def view_read(self, st, v, t, fr, node):
        loc, cell, width, off = self.view_parts(v)
        width = WIDTH.get(strip_ref(t), width)
        if width == cell and off % cell == 0 and loc.path and isinstance(loc.path[-1], Poly):
            return wrap(st, self.read(st, Loc(loc.base, loc.path[:-1] + (loc.path[-1] + C(off // cell),)), t, fr, node), t)
        if cell > width and not (loc.path and isinstance(loc.path[-1], Poly)) and off % width == 0 and 0 <= off < cell:
            u = wrap(st, self.read(st, loc, 'unsigned long'), 'unsigned long' if cell == 8 else 'unsigned int')
            a = fdiv(st, u, 256 ** off)
            return wrap(st, a - fdiv(st, u, 256 ** (off + width)) * 256 ** width if off + width < cell else a, t)
        r = ZERO
        for k in range(width):
            r = r + self.byte_at(st, loc, cell, off + k, fr, node) * 256 ** k
        return wrap(st, r, t)
    def view_write(self, st, v, x, fr, node):
        loc, cell, width, off = self.view_parts(v)
        if not isinstance(x, Poly): raise Budget('view write')
        u = wrap(st, x, {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[width])
        self.put_bytes(st, loc, cell, off, [fdiv(st, u, 256 ** k) - fdiv(st, u, 256 ** (k + 1)) * 256 if k + 1 < width else fdiv(st, u, 256 ** k) for k in range(width)], fr, node)
    def put_bytes(self, st, loc, cell, off, bs, fr, node):
        """store unsigned bytes bs from byte offset off of element loc"""
        arr = bool(loc.path and isinstance(loc.path[-1], Poly))
        i0 = loc.path[-1].const() if arr else 0
        if i0 is None: raise Budget('symbolic element index')
        k = 0
        t = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[cell]
        while k < len(bs):
            i, j = divmod(off + k, cell)
            l = Loc(loc.base, loc.path[:-1] + (C(i0 + i),)) if arr else loc
            n = min(cell - j, len(bs) - k)
            part = ZERO
            for m in range(n): part = part + bs[k + m] * 256 ** m
            if n == cell: v = part
            else:
                old = self.read(st, l, t, fr, node)
                if not isinstance(old, Poly): old = self.unknown(t, 'raw')
                lo = fdiv(st, old, 256 ** j)
                hi = fdiv(st, old, 256 ** (j + n))
                v = (old - lo * 256 ** j) + part * 256 ** j + hi * 256 ** (j + n)
            self.write(st, l, v, fr, node)
            k += n
    def rawptr(self, st, p):
        """-> (element location, cell size, byte offset)"""
        if isinstance(p, Opq) and p.tag == 'view':
            loc, cell, width, off = self.view_parts(p)
            return loc, cell, off
        if isinstance(p, Iter):
            p = Loc(p.loc.base, p.loc.path + (p.idx,))
        if isinstance(p, Loc):
            if p.path and isinstance(p.path[-1], Poly): return p, self.cell(st, p), 0
            if vsize(st, p) is not None: return None
            return p, 8 if st.ghost.get(('w', p)) == 8 else WIDTH.get(st.ghost.get(('ty', p), ''), 8), 0
        return None
    def x_CXXReinterpretCastExpr(self, st, fr, n):
        c = n['c'][0]
        v = self.val(st, fr, c)
        src = pointee(fr.pre.nodes[c].get('t', ''))
        dst = pointee(n.get('t', ''))
        if dst is None or src is None or dst not in WIDTH or src not in WIDTH or dst == 'void':
            return self.x_ImplicitCastExpr(st, fr, n)
        if isinstance(v, Opq) and v.tag == 'view':
            loc, cell, width, off = v.args
            self.put(st, fr, n, mkview(loc, cell.const(), WIDTH[dst], off)); return
        if isinstance(v, Loc):
            if v.path and isinstance(v.path[-1], Poly):
                cell = self.cell(st, v)
            else:
                cell = WIDTH[src] if WIDTH[src] else 8
            if cell == WIDTH[dst]: self.put(st, fr, n, v)
            else: self.put(st, fr, n, mkview(v, cell, WIDTH[dst], ZERO))
            return
        return self.x_ImplicitCastExpr(st, fr, n)
    x_CStyleCastExpr = x_CXXReinterpretCastExpr
    x_CXXStaticCastExpr = x_CXXReinterpretCastExpr
    def ptradd(self, st, p, d):
        if isinstance(p, Opq) and p.tag == 'view':
            loc, cell, width, off = p.args
            return mkview(loc, cell.const(), width.const(), off + d * width.const())
        return super().ptradd(st, p, d)
    def ptrdiff(self, a, b):
        if isinstance(a, Opq) and a.tag == 'view' and isinstance(b, Opq) and b.tag == 'view' and a.args[:3] == b.args[:3]:
            d = (a.args[3] - b.args[3]).const()
            w = a.args[2].const()
            return C(d // w) if d is not None and d % w == 0 else None
        return super().ptrdiff(a, b)
    # ---------------------------------------------------------------- allocation
    def alloc(self, st, kind=VEC):
        k = st.ghost.get('alloc', 0) + 1
        st.ghost['alloc'] = k
        return Loc((kind, k), ())
    def x_CXXNewExpr(self, st, fr, n):
        loc = self.alloc(st, 'heap')
        for x in n.get('c') or []:
            N = fr.pre.nodes[x]
            if N['k'] in ('CXXConstructExpr', 'InitListExpr', 'CXXTemporaryObjectExpr') or is_class(N.get('t', 'int')):
                v = self.val(st, fr, x)
                if isinstance(v, Loc):
                    self.copy_tree(st, v, loc); self.drop_temp(st, v, fr)
                else: st.mem[loc] = v
        self.put(st, fr, n, loc)
    def purge(self, st, fid):
        super().purge(st, fid)
    # exceptions end the path
    def noret(self, st, fr, b): pass
    def arith(self, s, fr, n, op, x, y, t):
        if op in ('/', '%') and y.const() is None and x.const() is None or op in ('/', '%') and y.const() is None:
            lo, hi = s.bounds(x)
            if lo >= 0 and s.bounds(y)[0] >= 0:
                h = self.hooks.get('divide')
                if h: h(self, s, fr, n, x, y)
                if x == y: return [(s, ONE if op == '/' else ZERO)]
                q = udiv(s, x, y)
                return [(s, q if op == '/' else x - y * q)]
        if op == '&':
            for p, m in ((x, y.const()), (y, x.const())):
                if m and m > 0:
                    z = m & -m
                    if z > 1 and ((m // z) & (m // z + 1)) == 0:     # contiguous mask above bit 0
                        w = m // z
                        a = fdiv(s, p, z)
                        l, h = s.bounds(a)
                        if l >= 0:
                            return [(s, (a if h <= w else a - fdiv(s, a, w + 1) * (w + 1)) * z)]
        return super().arith(s, fr, n, op, x, y, t)

def udiv(s, x, y):
    """floor(x / y) for x >= 0, y > 0, with the remainder facts"""
    q = app('udiv', (x, y), 0, BIG)
    ss = list(q.syms())
    if len(ss) == 1 and q == V(ss[0]):
        k = ss[0]
        if k not in s.b or s.b[k][1] >= BIG:
            lo, hi = s.bounds(x)
            ylo = max(1, s.bounds(y)[0])
            up = hi // ylo if hi < BIG else BIG
            for c in (0, 1, 2**32 - 1, 2**32, 2**33 - 1):
                if c < up and s.le0(x - y * (c + 1) + ONE):
                    up = c; break
            low = 0
            if s.le0(y - x): low = 1
            s.set_b(k, low, max(low, up))
            for f in (y * q - x, x - y * q - y + ONE):
                if f.const() is None and f not in s.facts: s.facts = s.facts + (f,)
            s.memo = {}
    return q

def _rb_udiv(x, y):
    a, b = x.const(), y.const()
    if a is not None and b: return C(a // b)
    if b == 1: return x
    return app('udiv', (x, y), 0, BIG)
REBUILD['udiv'] = _rb_udiv

def satisfiable(st, conds=()):
    if any(imp_state(st, c) for c in conds): return False
    if imprecise_path(st): return False
    for m in terms.models(st, list(st.facts) + list(st.neq) + list(st.eqs), list(conds), want=1):
        return True
    return False

def imprecise_path(st):
    return any(p.imprecise() for p in itertools.chain(st.facts, st.neq, st.eqs))

def imp_state(st, c):
    return c[1].imprecise()

# ---------------------------------------------------------------- undefined arithmetic
BITS = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
def check_arith(eng, s, fr, n, op, x, y, t):
    t = strip_ref(t)
    if op in ('<<', '>>'):
        eng.obl['shift'] += 1
        w = BITS.get(t)
        if w is None: return
        lo, hi = s.bounds(y)
        if lo >= 0 and hi < w: return
        for c in (('<=', y + ONE), ('<=', C(w) - y)):
            if s.cmp0(*c) is False: continue
            if y.imprecise(): continue
            if satisfiable(s, [c]):
                eng.alarm('shift-width', fr, n, 'a %d-bit value is shifted by %s, which can be outside 0..%d' % (w, y, w - 1))
    elif t in ('int', 'long', 'long long') and op in ('+', '-', '*'):
        eng.obl['signed'] += 1
        r = rng(t)
        p = x + y if op == '+' else x - y if op == '-' else x * y
        if fits(s, p, *r) or p.imprecise(): return
        for c in (('<=', p - C(r[0]) + ONE), ('<=', C(r[1]) - p + ONE)):
            if s.cmp0(*c) is False: continue
            if satisfiable(s, [c]):
                eng.alarm('signed-overflow', fr, n, 'signed %s can overflow %s: value %s' % (op, t, p))

def check_div(eng, s, fr, n, x, y):
    eng.obl['divisor'] += 1
    if s.bounds(y)[0] > 0 or s.cmp0('!=', y) is True or y.imprecise(): return
    if satisfiable(s, [('==', y)]):
        eng.alarm('word-div-by-zero', fr, n, 'divisor %s can be zero' % y)

# ---------------------------------------------------------------- standard library
TAB = {}
def T(*names):
    def d(f):
        def h(eng, st, fr, fn, this, args, node):
            r = f(eng, st, fr, fn, this, args, node)
            if isinstance(r, list) or r is NotImplemented: return r
            return [(st, r)]
        for n in names: TAB[n] = h
        return h
    return d

def obj(st, x):
    """object value stored at a location (iterators, pointers, shared pointers)"""
    return st.mem.get(x) if isinstance(x, Loc) and x in st.mem else x

def num(eng, st, x, t='unsigned long'):
    if isinstance(x, Loc): x = eng.read(st, x, strip_ref(t))
    if isinstance(x, Poly): return x
    raise Budget('size argument')

def cst(eng, st, x, t='unsigned long'):
    c = num(eng, st, x, t).const()
    if c is None: raise Budget('symbolic size')
    return c

def elt(fn):
    m = re.match(r'(?:class |struct )?std::vector<(.*)', fn.get('cls', '') or fn['q'])
    q = fn.get('cls') or fn['q']
    i = q.find('std::vector<')
    if i < 0: return None
    d, j = 0, i + 11
    out = ''
    for ch in q[j:]:
        if ch == '<':
            d += 1
            if d == 1: continue
        if ch == '>': d -= 1
        if d == 0 or (d == 1 and ch == ','): break
        out += ch
    return out.strip()

def vec_fill(eng, st, v, i, n, val):
    for k in range(i, i + n): put_elem(eng, st, v, k, val)

def put_elem(eng, st, v, i, val):
    d = elem(v, i)
    if isinstance(val, Loc):
        eng.copy_tree(st, val, d)
    else:
        st.mem[d] = val

def get_elems(eng, st, v):
    n = vsize(st, v)
    if n is None and getattr(eng, "vec_default", False): n = 0
    if n is None: raise Budget("vector size")
    return n

def shift_elems(eng, st, v, frm, n, by):
    """move elements [frm, n) by 'by' positions (by > 0)"""
    for i in range(n - 1, frm - 1, -1):
        src, dst = elem(v, i), elem(v, i + by)
        eng.copy_tree(st, src, dst) if is_tree(st, src) else st.mem.__setitem__(dst, st.mem.get(src, ZERO))

def is_tree(st, loc):
    return loc not in st.mem

def argval(eng, st, a, t):
    """value of a const reference / value argument of element type t"""
    if isinstance(a, Loc) and not is_class(strip_ref(t)): return eng.read(st, a, strip_ref(t))
    return a

def wid(t):
    return WIDTH.get(t, 4) or 4

@T('std::vector::vector')
def v_ctor(eng, st, fr, fn, this, args, node):
    ps = [strip_ref(p) for p in fn.get('p', [])]
    t = elt(fn)
    if fn.get('copy') or fn.get('move') or (ps and no_targs(ps[0]) == 'std::vector'):
        eng.copy_tree(st, args[0], this)
        if fn.get('move') or (fn['p'] and fn['p'][0].rstrip().endswith('&&')):
            src = args[0]
            for i in range(vsize(st, src) or 0): eng.kill_tree(st, elem(src, i))
            set_size(st, src, 0)
        return this
    eng.kill_tree(st, this)
    if t in WIDTH: st.mem[Loc(this.base, this.path + ('#sz',))] = C(wid(t))
    if not ps or 'allocator' in ps[0]:
        set_size(st, this, 0); return this
    if rng(ps[0]) is not None:
        n = cst(eng, st, args[0])
        if n > 4096: raise Budget('vector size')
        val = ZERO
        if len(ps) >= 2 and 'allocator' not in ps[1]: val = argval(eng, st, args[1], t)
        if not (t in WIDTH) and n: raise Budget('vector of objects')
        set_size(st, this, n)
        vec_fill(eng, st, this, 0, n, val)
        return this
    if len(args) >= 2 and isinstance(obj(st, args[0]), (Iter, Loc)):
        cells = rng_read(eng, st, args[0], args[1])
        set_size(st, this, len(cells))
        for i, x in enumerate(cells): st.mem[elem(this, i)] = x
        return this
    raise Budget('vector constructor')
@T('std::vector::~vector', 'std::shared_ptr::~shared_ptr')
def v_dtor(eng, st, fr, fn, this, args, node): return ZERO
@T('std::vector::size')
def v_size(eng, st, fr, fn, this, args, node): return C(get_elems(eng, st, this))
@T('std::vector::capacity', 'std::vector::max_size')
def v_cap(eng, st, fr, fn, this, args, node): return eng.unknown('unsigned long', 'cap')
@T('std::vector::empty')
def v_empty(eng, st, fr, fn, this, args, node): return C(int(get_elems(eng, st, this) == 0))
@T('std::vector::reserve', 'std::vector::shrink_to_fit')
def v_res(eng, st, fr, fn, this, args, node): return ZERO
@T('std::vector::operator[]', 'std::vector::at')
def v_idx(eng, st, fr, fn, this, args, node):
    p = num(eng, st, args[0])
    i = p.const()
    n = get_elems(eng, st, this)
    if i is None: raise Budget('symbolic element index')
    eng.obl['element'] += 1
    if not 0 <= i < n:
        if fn['n'] == 'at': return []
        if not eng.quiet_oob(fr): eng.oob(st, fr, node, i, n, 'read'); return []
    return elem(this, i)
def _quiet(self, fr): return False
WordEngine.quiet_oob = _quiet
@T('std::vector::front')
def v_front(eng, st, fr, fn, this, args, node): return elem(this, 0)
@T('std::vector::back')
def v_back(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    if n == 0: eng.oob(st, fr, node, -1, 0, 'read'); return []
    return elem(this, n - 1)
@T('std::vector::data')
def v_data(eng, st, fr, fn, this, args, node): return elem(this, 0)
@T('std::vector::begin', 'std::vector::cbegin')
def v_begin(eng, st, fr, fn, this, args, node): return Iter(this, ZERO)
@T('std::vector::end', 'std::vector::cend')
def v_end(eng, st, fr, fn, this, args, node): return Iter(this, C(get_elems(eng, st, this)))
@T('std::vector::clear')
def v_clear(eng, st, fr, fn, this, args, node): resize(eng, st, this, 0); return ZERO
def resize(eng, st, v, n, val=ZERO):
    m = get_elems(eng, st, v)
    if n > 4096: raise Budget('vector size')
    for i in range(n, m): eng.kill_tree(st, elem(v, i))
    if n > m: vec_fill(eng, st, v, m, n - m, val)
    set_size(st, v, n)
@T('std::vector::resize')
def v_resize(eng, st, fr, fn, this, args, node):
    t = elt(fn)
    if t not in WIDTH: raise Budget('resize of objects')
    resize(eng, st, this, cst(eng, st, args[0]), argval(eng, st, args[1], t) if len(args) > 1 else ZERO)
    return ZERO
@T('std::vector::assign')
def v_assign(eng, st, fr, fn, this, args, node):
    t = elt(fn)
    if t not in WIDTH: raise Budget('assign of objects')
    if isinstance(obj(st, args[0]), Iter) or (isinstance(args[0], Loc) and is_ptr(fn['p'][0])):
        cells = rng_read(eng, st, args[0], args[1])
        resize(eng, st, this, len(cells))
        for i, x in enumerate(cells): st.mem[elem(this, i)] = x
        return ZERO
    n = cst(eng, st, args[0]); v = argval(eng, st, args[1], t)
    resize(eng, st, this, 0); resize(eng, st, this, n, v)
    return ZERO
@T('std::vector::push_back')
def v_push(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    t = elt(fn)
    v = argval(eng, st, args[0], t)
    set_size(st, this, n + 1)
    if isinstance(v, Loc):
        return construct(eng, st, fr, node, t, elem(this, n), [v], fn['p'])
    st.mem[elem(this, n)] = v
    return ZERO
def construct(eng, st, fr, node, t, dst, args, ptypes):
    """construct an object of repository class t at dst"""
    cands = [f for f in eng.F.byq.get(t + '::' + t.split('::')[-1], []) if 'blocks' in f and len(f['p']) >= len(args)]
    def score(f):
        if len(f['p']) != len(args) and not all('d' in p and p.get('dflt') for p in f['params'][len(args):]): 
            if len(f['p']) != len(args): return -1
        s = 0
        for a, b in zip(ptypes, f['p']):
            if strip_ref(a) == strip_ref(b):
                s += 3
                if is_ref(b) and b.rstrip().endswith('&&') == a.rstrip().endswith('&&'): s += 1
            elif rng(strip_ref(a)) and rng(strip_ref(b)): s += 1
            else: return -1
        return s
    cands = sorted(((score(f), f['id'], f) for f in cands), key=lambda x: (-x[0], x[1]))
    if not cands or cands[0][0] < 0: raise Budget('constructor of %s' % t)
    f = cands[0][2]
    vals = []
    for a, p, pt in zip(args, f['p'], ptypes):
        if not is_class(strip_ref(p)) and isinstance(a, Loc) and not is_ref(p): a = eng.read(st, a, strip_ref(pt))
        vals.append(a)
    eng.kill_tree(st, dst)
    if not args and (f.get('implicit') or f.get('defaulted')):      # T(): zero-initialised first
        for fl in (eng.F.records.get(t) or {}).get('fields', ()):
            if not is_class(fl['t']) and not is_ref(fl['t']) and '[' not in fl['t']: st.mem[Loc(dst.base, dst.path + (fl['q'],))] = ZERO
    return [(s, dst) for s, _ in eng.call(st, fr, f, dst, vals, dict(node, id=('ctor', node['id'])))]
@T('std::vector::emplace_back')
def v_emplace(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    t = elt(fn)
    if t in WIDTH:
        set_size(st, this, n + 1)
        st.mem[elem(this, n)] = argval(eng, st, args[0], t) if args else ZERO
        return elem(this, n)
    set_size(st, this, n + 1)
    return construct(eng, st, fr, node, t, elem(this, n), list(args), fn['p'])
@T('std::vector::pop_back')
def v_pop(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    if n == 0: eng.oob(st, fr, node, -1, 0, 'read'); return []
    eng.kill_tree(st, elem(this, n - 1)); set_size(st, this, n - 1)
    return ZERO
@T('std::vector::insert')
def v_insert(eng, st, fr, fn, this, args, node):
    t = elt(fn)
    it = obj(st, args[0])
    if not isinstance(it, Iter): raise Budget('insert position')
    i = it.idx.const(); n = get_elems(eng, st, this)
    if i is None: raise Budget('insert position')
    if t not in WIDTH: raise Budget('insert of objects')
    if len(args) == 2: k, v = 1, argval(eng, st, args[1], t)
    elif len(args) == 3 and rng(strip_ref(fn['p'][1])): k, v = cst(eng, st, args[1]), argval(eng, st, args[2], t)
    else: raise Budget('insert form')
    if n + k > 4096: raise Budget('vector size')
    shift_elems(eng, st, this, i, n, k)
    set_size(st, this, n + k)
    vec_fill(eng, st, this, i, k, v)
    return Iter(this, it.idx)
@T('std::vector::erase')
def v_erase(eng, st, fr, fn, this, args, node):
    t = elt(fn)
    a = obj(st, args[0]); b = obj(st, args[1]) if len(args) > 1 else None
    i = a.idx.const(); j = b.idx.const() if b is not None else i + 1
    n = get_elems(eng, st, this)
    if i is None or j is None or t not in WIDTH or not 0 <= i <= j <= n: raise Budget('erase')
    for k in range(j, n): st.mem[elem(this, k - (j - i))] = st.mem[elem(this, k)]
    resize(eng, st, this, n - (j - i))
    return Iter(this, C(i))
@T('std::vector::operator=')
def v_asg(eng, st, fr, fn, this, args, node):
    if args[0] == this: return this
    eng.copy_tree(st, args[0], this)
    if fn['p'][0].rstrip().endswith('&&'):
        src = args[0]
        for i in range(vsize(st, src) or 0): eng.kill_tree(st, elem(src, i))
        set_size(st, src, 0)
    return this
@T('std::vector::swap')
def v_swap(eng, st, fr, fn, this, args, node):
    t = tmp(fr, node, 'swap')
    eng.copy_tree(st, this, t); eng.copy_tree(st, args[0], this); eng.copy_tree(st, t, args[0]); eng.kill_tree(st, t)
    return ZERO

# ---- shared pointers
@T('std::shared_ptr::shared_ptr')
def sp_ctor(eng, st, fr, fn, this, args, node):
    if not args: st.mem[this] = ZERO; return this
    a, p = args[0], fn['p'][0]
    if is_ref(p) and not is_ptr(strip_ref(p)):
        v = st.mem.get(a) if isinstance(a, Loc) else a
        if v is None: raise Budget('shared pointer value')
        st.mem[this] = v
        if p.rstrip().endswith('&&') and isinstance(a, Loc) and a != this: st.mem[a] = ZERO
        return this
    v = a
    st.mem[this] = Opq('sp', (v,)) if isinstance(v, Loc) else ZERO
    return this
@T('std::shared_ptr::operator=')
def sp_asg(eng, st, fr, fn, this, args, node):
    a, p = args[0], fn['p'][0]
    v = st.mem.get(a) if isinstance(a, Loc) else a
    if v is None: raise Budget('shared pointer value')
    if a == this: return this
    st.mem[this] = v
    if p.rstrip().endswith('&&') and isinstance(a, Loc): st.mem[a] = ZERO
    return this
@T('std::__shared_ptr::reset', 'std::shared_ptr::reset')
def sp_reset(eng, st, fr, fn, this, args, node):
    st.mem[this] = Opq('sp', (args[0],)) if args and isinstance(args[0], Loc) else ZERO
    return ZERO
@T('std::__shared_ptr::swap', 'std::shared_ptr::swap')
def sp_swap(eng, st, fr, fn, this, args, node):
    st.mem[this], st.mem[args[0]] = st.mem.get(args[0], ZERO), st.mem.get(this, ZERO)
    return ZERO
def sp_count(st, v):
    return sum(1 for x in st.mem.values() if x == v)
@T('std::__shared_ptr::use_count', 'std::shared_ptr::use_count')
def sp_uc(eng, st, fr, fn, this, args, node):
    v = obj(st, this)
    return C(sp_count(st, v)) if is_sp(v) else ZERO
@T('std::__shared_ptr::unique', 'std::shared_ptr::unique')
def sp_un(eng, st, fr, fn, this, args, node):
    v = obj(st, this)
    return C(int(is_sp(v) and sp_count(st, v) == 1))
@T('std::__shared_ptr::operator bool', 'std::shared_ptr::operator bool')
def sp_bool(eng, st, fr, fn, this, args, node):
    return C(int(is_sp(obj(st, this))))
@T('std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*', 'std::__shared_ptr::get', 'std::shared_ptr::operator->',
   'std::shared_ptr::operator*')
def sp_get(eng, st, fr, fn, this, args, node):
    v = obj(st, this)
    if is_sp(v): return v.args[0]
    if fn['n'] == 'get': return ZERO
    if isinstance(v, Poly) and satisfiable(st):
        eng.alarm('null-storage', fr, node, 'a null storage pointer is dereferenced')
        return []
    raise Budget('shared pointer value')
@T('std::make_shared')
def sp_make(eng, st, fr, fn, this, args, node):
    m = re.search(r'shared_ptr<(std::vector<.*)>\s*$', fn['r'])
    if not m: return NotImplemented
    t = m.group(1)
    loc = eng.alloc(st, 'heap')
    f2 = dict(fn, cls=t, q=t + '::vector', p=[strip_ref(p) for p in fn['p']])
    et = elt(f2)
    if et not in WIDTH: return NotImplemented
    a2 = [argval(eng, st, a, p) if rng(strip_ref(p)) else a for a, p in zip(args, fn['p'])]
    f2['move'] = bool(fn['p'] and 'std::vector<' in fn['p'][0] and fn['p'][0].rstrip().endswith('&&'))
    f2['copy'] = bool(fn['p'] and 'std::vector<' in fn['p'][0] and not f2['move'])
    TAB['std::vector::vector'](eng, st, fr, f2, loc, a2, node)
    r = tmp(fr, node)
    st.mem[r] = Opq('sp', (loc,))
    return r

def ptr_eq(eng, st, a, b):
    a, b = obj(st, a), obj(st, b)
    if isinstance(a, (Poly,)) and isinstance(b, Opq) or isinstance(b, Poly) and isinstance(a, Opq): return False
    if (is_sp(a) or a == ZERO) and (is_sp(b) or b == ZERO): return a == b
    return None
@T('std::operator==', 'std::operator!=')
def op_eq(eng, st, fr, fn, this, args, node):
    a, b = obj(st, args[0]), obj(st, args[1])
    if isinstance(a, Iter) and isinstance(b, Iter):
        return eng.compare(st, fn['n'][8:], a, b)
    r = ptr_eq(eng, st, a, b)
    if r is None: return NotImplemented
    return C(int(r == (fn['n'] == 'operator==')))

# ---- iterators
@T('__gnu_cxx::__normal_iterator::__normal_iterator')
def it_ctor(eng, st, fr, fn, this, args, node):
    v = obj(st, args[0]) if args else ZERO
    eng.kill_tree(st, this)
    st.mem[this] = v
    return this
@T('__gnu_cxx::__normal_iterator::operator=')
def it_asg(eng, st, fr, fn, this, args, node):
    st.mem[this] = obj(st, args[0]); return this
@T('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->', '__gnu_cxx::__normal_iterator::base')
def it_deref(eng, st, fr, fn, this, args, node):
    v = obj(st, this)
    if not isinstance(v, Iter): raise Budget('iterator')
    i = v.idx.const()
    n = vsize(st, v.loc)
    if i is not None and n is not None and fn['n'] != 'base':
        eng.obl['element'] += 1
        if not 0 <= i < n: eng.oob(st, fr, node, i, n, 'read')
    return Loc(v.loc.base, v.loc.path + (v.idx,))
@T('__gnu_cxx::__normal_iterator::operator[]')
def it_idx(eng, st, fr, fn, this, args, node):
    v = obj(st, this)
    return Loc(v.loc.base, v.loc.path + (v.idx + num(eng, st, args[0], 'long'),))
@T('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def it_add(eng, st, fr, fn, this, args, node):
    v = obj(st, this); d = num(eng, st, args[0], 'long')
    if not isinstance(v, Iter): raise Budget('iterator')
    return Iter(v.loc, v.idx + d if fn['n'][-1] == '+' else v.idx - d)
@T('__gnu_cxx::operator+')
def it_add2(eng, st, fr, fn, this, args, node):
    d, v = num(eng, st, args[0], 'long'), obj(st, args[1])
    return Iter(v.loc, v.idx + d)
@T('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def it_addeq(eng, st, fr, fn, this, args, node):
    v = obj(st, this); d = num(eng, st, args[0], 'long')
    st.mem[this] = Iter(v.loc, v.idx + d if '+' in fn['n'] else v.idx - d)
    return this
@T('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--')
def it_inc(eng, st, fr, fn, this, args, node):
    v = obj(st, this); d = 1 if '++' in fn['n'] else -1
    if not isinstance(v, Iter): raise Budget('iterator')
    st.mem[this] = Iter(v.loc, v.idx + C(d))
    return v if args else this
@T('__gnu_cxx::operator-')
def it_diff(eng, st, fr, fn, this, args, node):
    a, b = obj(st, args[0]), obj(st, args[1])
    if isinstance(a, Iter) and isinstance(b, Iter) and a.loc == b.loc: return a.idx - b.idx
    raise Budget('iterator difference')
@T(*['__gnu_cxx::operator' + o for o in ('==', '!=', '<', '<=', '>', '>=')])
def it_cmp(eng, st, fr, fn, this, args, node):
    a, b = obj(st, args[0]), obj(st, args[1])
    if isinstance(a, Iter) and isinstance(b, Iter) and a.loc == b.loc: return eng.compare(st, fn['n'][8:], a, b)
    if isinstance(a, Iter) and isinstance(b, Iter) and fn['n'][8:] in ('==', '!='): return C(int(fn['n'][8:] == '!='))
    raise Budget('iterator comparison')
# reverse iterators: Opq('rit', (Iter,))
@T('std::vector::rbegin', 'std::vector::crbegin')
def v_rb(eng, st, fr, fn, this, args, node): return Opq('rit', (Iter(this, C(get_elems(eng, st, this))),))
@T('std::vector::rend', 'std::vector::crend')
def v_re(eng, st, fr, fn, this, args, node): return Opq('rit', (Iter(this, ZERO),))
@T('std::reverse_iterator::operator*', 'std::reverse_iterator::operator->')
def r_deref(eng, st, fr, fn, this, args, node):
    v = obj(st, this)
    it = v.args[0]
    i = (it.idx - ONE).const()
    n = vsize(st, it.loc)
    if i is None or n is None: raise Budget('iterator')
    if not 0 <= i < n: eng.oob(st, fr, node, i, n, 'read')
    return elem(it.loc, i)
@T('std::reverse_iterator::operator++', 'std::reverse_iterator::operator--')
def r_inc(eng, st, fr, fn, this, args, node):
    v = obj(st, this); it = v.args[0]
    st.mem[this] = Opq('rit', (Iter(it.loc, it.idx - ONE if '++' in fn['n'] else it.idx + ONE),))
    return v if args else this
@T('std::reverse_iterator::reverse_iterator')
def r_ctor(eng, st, fr, fn, this, args, node):
    st.mem[this] = obj(st, args[0]); return this

# ---- algorithms
def rng_parts(eng, st, a, b):
    """(list of element locations of [a, b))"""
    a, b = obj(st, a) if isinstance(obj(st, a), (Iter, Loc, Opq)) else a, obj(st, b) if isinstance(obj(st, b), (Iter, Loc, Opq)) else b
    d = eng.ptrdiff(a, b)
    if d is None or d.const() is None: raise Budget('range')
    n = -d.const()
    if n > 4096: raise Budget('range')
    return [at(eng, st, a, i) for i in range(n)]
def at(eng, st, a, i):
    a2 = obj(st, a) if isinstance(a, Loc) and isinstance(st.mem.get(a), Iter) else a
    if isinstance(a2, Iter): return Loc(a2.loc.base, a2.loc.path + (a2.idx + C(i),))
    if isinstance(a2, Loc): return eng.ptradd(st, a2, C(i))
    if isinstance(a2, Opq) and a2.tag == 'view': return eng.ptradd(st, a2, C(i))
    raise Budget('range')
def ityp(fn, k=0):
    """element type of the iterator parameter k"""
    t = strip_ref(fn['p'][k]) if k < len(fn['p']) else ''
    p = pointee(t)
    if p is None:
        m = re.match(r'__gnu_cxx::__normal_iterator<(.*?) ?\*', t)
        p = arith.clean(m.group(1)) if m else 'unsigned int'
    return p if rng(p) else 'unsigned int'
def rng_read(eng, st, a, b, t='unsigned int', fr=None, node=None):
    return [eng.read(st, l, t, fr, node) for l in rng_parts(eng, st, a, b)]
@T('std::copy', 'std::move', 'std::copy_n', 'std::copy_backward', 'std::move_backward', 'std::uninitialized_copy')
def a_copy(eng, st, fr, fn, this, args, node):
    if fn['n'] == 'move' and len(args) == 1: return args[0]
    t = ityp(fn)
    if fn['n'] == 'copy_n':
        n = cst(eng, st, args[1]); vals = [eng.read(st, at(eng, st, args[0], i), t, fr, node) for i in range(n)]
    else:
        vals = rng_read(eng, st, args[0], args[1], t, fr, node)
    back = fn['n'].endswith('backward')
    for i, v in enumerate(vals):
        eng.write(st, at(eng, st, args[2], i - len(vals) if back else i), v, fr, node)
    d = obj(st, args[2])
    return Iter(d.loc, d.idx + C(-len(vals) if back else len(vals))) if isinstance(d, Iter) else eng.ptradd(st, args[2], C(len(vals)))
@T('std::fill')
def a_fill(eng, st, fr, fn, this, args, node):
    v = argval(eng, st, args[2], fn['p'][2])
    for l in rng_parts(eng, st, args[0], args[1]): eng.write(st, l, fit(st, v, ityp(fn)), fr, node)
    return ZERO
def fit(st, v, t):
    return wrap(st, v, t) if isinstance(v, Poly) else v
@T('std::fill_n')
def a_fill_n(eng, st, fr, fn, this, args, node):
    n = cst(eng, st, args[1]); v = argval(eng, st, args[2], fn['p'][2])
    if n > 4096: raise Budget('range')
    for i in range(n): eng.write(st, at(eng, st, args[0], i), fit(st, v, ityp(fn)), fr, node)
    d = obj(st, args[0])
    return Iter(d.loc, d.idx + C(n)) if isinstance(d, Iter) else eng.ptradd(st, args[0], C(n))
@T('std::find_if', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find')
def a_find(eng, st, fr, fn, this, args, node):
    ls = rng_parts(eng, st, args[0], args[1])
    t = ityp(fn)
    a = obj(st, args[0]) if isinstance(obj(st, args[0]), Iter) else args[0]
    lam = st.mem.get(args[2]) if isinstance(args[2], Loc) and isinstance(st.mem.get(args[2]), (Lam, FnRef)) else args[2]
    out = []
    def res(i, found):
        if fn['n'].startswith('find'): return Iter(a.loc, a.idx + C(i)) if isinstance(a, Iter) else eng.ptradd(st, a, C(i))
        if fn['n'] == 'any_of': return C(int(found))
        if fn['n'] == 'none_of': return C(int(not found))
        return C(int(not found))
    cur = [st]
    for i, l in enumerate(ls):
        nxt = []
        for s in cur:
            x = eng.read(s, l, t, fr, node)
            if fn['n'] == 'find':
                rs = [(s, eng.compare(s, '==', x, argval(eng, s, args[2], fn['p'][2])))]
            elif isinstance(lam, Lam):
                rs = eng.lam_call(s, fr, lam, [x], dict(node, id=('find', node['id'], i)))
                if rs is None: raise Budget('predicate')
            else:
                raise Budget('predicate')
            for s2, v in rs:
                for s3, b in eng.split(s2, v):
                    if fn['n'] in ('find_if_not', 'all_of'): b = not b
                    (out.append((s3, res(i, True))) if b else nxt.append(s3))
        cur = nxt
    for s in cur: out.append((s, res(len(ls), False)))
    return out
@T('std::reverse')
def a_rev(eng, st, fr, fn, this, args, node):
    ls = rng_parts(eng, st, args[0], args[1])
    t = ityp(fn)
    vs = [eng.read(st, l, t, fr, node) for l in ls]
    if isinstance(ls[0] if ls else None, Loc) and ls[0].base[0] in ('bin', 'malloc'): vs = [wrap(st, v, 'unsigned char') for v in vs]
    for l, v in zip(ls, vs[::-1]): eng.write(st, l, v, fr, node)
    return ZERO
@T('std::equal')
def a_equal(eng, st, fr, fn, this, args, node):
    ls = rng_parts(eng, st, args[0], args[1])
    cur, out = [st], []
    for i, l in enumerate(ls):
        nxt = []
        for s in cur:
            for s2, b in eng.split(s, eng.compare(s, '==', eng.read(s, l, ityp(fn)), eng.read(s, at(eng, s, args[2], i), ityp(fn)))):
                nxt.append(s2) if b else out.append((s2, ZERO))
        cur = nxt
    return out + [(s, ONE) for s in cur]
@T('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy')
def m_cpy(eng, st, fr, fn, this, args, node):
    n = cst(eng, st, args[2])
    if n == 0: return args[0]
    d, s = eng.rawptr(st, args[0]), eng.rawptr(st, args[1])
    if d is None or s is None or n > 65536: raise Budget('memcpy')
    (dl, dc, do), (sl, sc, so) = d, s
    eng.obl['memcpy'] += 1
    if dc == sc and n % dc == 0 and do % dc == 0 and so % sc == 0 and all(x.path and isinstance(x.path[-1], Poly) for x in (dl, sl)):
        t = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[dc]
        vals = [eng.read(st, Loc(sl.base, sl.path[:-1] + (sl.path[-1] + C(so // sc + i),)), t, fr, node) for i in range(n // dc)]
        for i, v in enumerate(vals): eng.write(st, Loc(dl.base, dl.path[:-1] + (dl.path[-1] + C(do // dc + i),)), v, fr, node)
        return args[0]
    bs = [eng.byte_at(st, sl, sc, so + k, fr, node) for k in range(n)]
    eng.put_bytes(st, dl, dc, do, bs, fr, node)
    return args[0]
@T('memset', 'std::memset', '__builtin_memset')
def m_set(eng, st, fr, fn, this, args, node):
    n = cst(eng, st, args[2]); v = num(eng, st, args[1], 'int').const()
    d = eng.rawptr(st, args[0])
    if n == 0: return args[0]
    if v is None or d is None or n > 65536: raise Budget('memset')
    eng.put_bytes(st, d[0], d[1], d[2], [C(v & 255)] * n, fr, node)
    return args[0]
@T('malloc', 'std::malloc', 'calloc', 'std::calloc')
def m_alloc(eng, st, fr, fn, this, args, node):
    n = cst(eng, st, args[0])
    if 'calloc' in fn['n']: n *= cst(eng, st, args[1])
    if n > 65536: raise Budget('malloc')
    loc = eng.alloc(st, 'malloc')
    set_size(st, loc, n)
    for i in range(n): st.mem[elem(loc, i)] = ZERO if 'calloc' in fn['n'] else fresh('raw', 0, 255, imp=True)
    return elem(loc, 0)
@T('free', 'std::free')
def m_free(eng, st, fr, fn, this, args, node):
    p = args[0]
    if isinstance(p, Loc):
        b = Loc(p.base, p.path[:-1])
        if vsize(st, b) is None and ('freed', p.base) in st.ghost and satisfiable(st):
            eng.alarm('double-free', fr, node, 'a buffer is freed twice')
        st.ghost[('freed', p.base)] = True
        eng.kill_tree(st, b)
    return ZERO
@T('__builtin_clz', '__builtin_clzl', '__builtin_clzll', '__builtin_ctz', '__builtin_ctzl', '__builtin_ctzll')
def b_clz(eng, st, fr, fn, this, args, node):
    w = 32 if fn['n'][-3:] in ('clz', 'ctz') else 64
    p = args[0]
    c = p.const()
    if c is not None:
        if c == 0:
            if satisfiable(st): eng.alarm('clz-zero', fr, node, 'leading zeros of 0 are counted')
            return []
        return C(w - c.bit_length() if 'clz' in fn['n'] else (c & -c).bit_length() - 1)
    if 'ctz' in fn['n']: raise Budget('ctz')
    if st.cmp0('==', p) is not False and not p.imprecise() and satisfiable(st, [('==', p)]):
        eng.alarm('clz-zero', fr, node, 'leading zeros of a word that can be 0 are counted: %s' % p)
    lo, hi = st.bounds(p)
    out = []
    for b in range(max(lo, 1).bit_length(), hi.bit_length() + 1):
        s = st.copy()
        try:
            s.assume('<=', C(1 << (b - 1)) - p); s.assume('<=', p - C((1 << b) - 1))
            out.append((s, C(w - b)))
        except Infeasible: pass
    return out
@T('std::make_tuple', 'std::make_pair', 'std::tie')
def mk_tuple(eng, st, fr, fn, this, args, node):
    vals = tuple(argval(eng, st, a, p) for a, p in zip(args, fn['p']))
    return Opq('tuple', vals)
@T('std::tuple::tuple', 'std::pair::pair')
def t_ctor(eng, st, fr, fn, this, args, node):
    if len(args) == 1 and ('tuple<' in fn['p'][0] or 'pair<' in fn['p'][0]): v = obj(st, args[0])
    else: v = Opq('tuple', tuple(argval(eng, st, a, p) for a, p in zip(args, fn['p'])))
    st.mem[this] = v
    return this
@T('std::get')
def t_get(eng, st, fr, fn, this, args, node):
    v = obj(st, args[0])
    m = re.search(r'get<(\d+)', fn['q'])
    if isinstance(v, Opq) and v.tag == 'tuple' and m:
        loc = tmp(fr, node); st.mem[loc] = v.args[int(m.group(1))]
        return loc
    return NotImplemented
@T('std::swap')
def a_swap(eng, st, fr, fn, this, args, node):
    a, b = args
    if not (isinstance(a, Loc) and isinstance(b, Loc)): raise Budget('swap')
    if a == b: return ZERO
    t = tmp(fr, node, 'swap')
    eng.copy_tree(st, a, t); eng.copy_tree(st, b, a); eng.copy_tree(st, t, b); eng.kill_tree(st, t)
    return ZERO
@T('std::exchange')
def a_exch(eng, st, fr, fn, this, args, node):
    t = tmp(fr, node)
    eng.copy_tree(st, args[0], t) if is_class(strip_ref(fn['p'][0])) else st.mem.__setitem__(t, eng.read(st, args[0], strip_ref(fn['p'][0])))
    v = args[1]
    if isinstance(v, Loc) and not is_class(strip_ref(fn['p'][1])): v = eng.read(st, v, strip_ref(fn['p'][1]))
    eng.copy_tree(st, v, args[0]) if isinstance(v, Loc) else st.mem.__setitem__(args[0], v)
    return t if is_class(strip_ref(fn['p'][0])) else st.mem[t]
@T('std::distance')
def a_dist(eng, st, fr, fn, this, args, node):
    d = eng.ptrdiff(obj(st, args[1]), obj(st, args[0]))
    if d is None: raise Budget('distance')
    return d
@T('std::next', 'std::prev')
def a_next(eng, st, fr, fn, this, args, node):
    v = obj(st, args[0]); k = num(eng, st, args[1], 'long') if len(args) > 1 else ONE
    if fn['n'] == 'prev': k = -k
    return Iter(v.loc, v.idx + k) if isinstance(v, Iter) else eng.ptradd(st, v, k)
@T('fputs', 'printf', 'fprintf', 'puts')
def io(eng, st, fr, fn, this, args, node): return ZERO
