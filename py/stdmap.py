"""Model of associative containers with constant keys, tuples, bind and callables, for the status registry and the symbol table."""
from valmodel import *

def keyof(eng, st, k):
    if isinstance(k, Loc):
        v = st.mem.get(k)
        k = v if v is not None else eng.objval(st, k)
    if isinstance(k, Poly) and k.const() is not None: return k.const()
    return None

def entry(m, k): return Loc(m.base, m.path + ('#e', k))

def keys(st, m):
    return st.ghost.get(('map', m), ())

def addkey(st, m, k):
    ks = keys(st, m)
    if k not in ks: st.ghost[('map', m)] = ks + (k,)

def I(f):
    def h(eng, st, fr, fn, this, args, node):
        r = f(eng, st, fr, fn, this, args, node)
        return r if isinstance(r, list) or r is NotImplemented else [(st, r)]
    return h

def tmp(fr, node): return Loc((fr.id if fr else (), 't', node['id']), ())

def install(T, log=None):
    """log(eng, st, fr, node, what, map, key)"""
    L = log or (lambda *a: None)
    def it(fr, st, node, m, k):
        t = tmp(fr, node); st.mem[t] = Opq('mapit', (m, k)); return t
    @I
    def find(eng, st, fr, fn, this, args, node):
        k = keyof(eng, st, args[0])
        if k is None or not isinstance(this, Loc): return NotImplemented
        L(eng, st, fr, node, 'find', this, k)
        return it(fr, st, node, this, k if k in keys(st, this) else 'end')
    @I
    def end(eng, st, fr, fn, this, args, node):
        if not isinstance(this, Loc): return NotImplemented
        return it(fr, st, node, this, 'end')
    @I
    def index(eng, st, fr, fn, this, args, node):
        k = keyof(eng, st, args[0])
        if k is None or not isinstance(this, Loc): return NotImplemented
        L(eng, st, fr, node, 'index', this, k)
        addkey(st, this, k)
        return Loc(this.base, this.path + ('#e', k, 'std::pair::second'))
    @I
    def at(eng, st, fr, fn, this, args, node):
        k = keyof(eng, st, args[0])
        if k is None or not isinstance(this, Loc): return NotImplemented
        if k not in keys(st, this): return []
        return Loc(this.base, this.path + ('#e', k, 'std::pair::second'))
    @I
    def count(eng, st, fr, fn, this, args, node):
        k = keyof(eng, st, args[0])
        if k is None or not isinstance(this, Loc): return NotImplemented
        return C(int(k in keys(st, this)))
    @I
    def emplace(eng, st, fr, fn, this, args, node):
        if len(args) < 2: return NotImplemented
        k = keyof(eng, st, args[0])
        if k is None or not isinstance(this, Loc): return NotImplemented
        L(eng, st, fr, node, 'emplace', this, k)
        new = k not in keys(st, this)
        if new or fn['n'] == 'insert_or_assign':
            addkey(st, this, k)
            d = Loc(this.base, this.path + ('#e', k, 'std::pair::second'))
            eng.kill_tree(st, d)
            if len(args) == 2 and isinstance(args[1], Loc): eng.copy_tree(st, args[1], d)
            elif len(args) == 2: st.mem[d] = args[1]
            else:
                for i, a in enumerate(args[1:]): put(eng, st, Loc(d.base, d.path + ('#t%d' % i,)), a)
        t = tmp(fr, node)
        st.mem[Loc(t.base, ('std::pair::second',))] = C(int(new))
        st.mem[Loc(t.base, ('std::pair::first',))] = Opq('mapit', (this, k))
        return t
    for c in ('std::unordered_map', 'std::map'):
        T[c + '::find'] = find
        T[c + '::end'] = T[c + '::cend'] = end
        T[c + '::operator[]'] = index
        T[c + '::at'] = at
        T[c + '::count'] = T[c + '::contains'] = count
        T[c + '::emplace'] = T[c + '::try_emplace'] = T[c + '::insert_or_assign'] = emplace
    def itv(st, a):
        v = st.mem.get(a) if isinstance(a, Loc) else a
        return v if isinstance(v, Opq) and v.tag == 'mapit' else None
    @I
    def iteq(eng, st, fr, fn, this, args, node):
        xs = ([this] if this is not None else []) + list(args)
        a, b = itv(st, xs[0]), itv(st, xs[1])
        if a is None or b is None: return NotImplemented
        eq = a.args == b.args
        return C(int(eq == (fn['n'] == 'operator==')))
    for c in ('std::__detail::', 'std::', 'std::__detail::_Node_iterator_base::', 'std::_Rb_tree_iterator::'):
        T[c + 'operator=='] = T[c + 'operator!='] = iteq
    @I
    def arrow(eng, st, fr, fn, this, args, node):
        v = itv(st, this)
        if v is None: return NotImplemented
        m, k = v.args
        L(eng, st, fr, node, 'deref', m, k)
        if k == 'end': return Opq('endentry', (m,))
        return entry(m, k)
    for c in ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
        T[c + '::operator->'] = T[c + '::operator*'] = arrow
    def put(eng, st, d, a):
        eng.kill_tree(st, d)
        if isinstance(a, Loc):
            v = st.mem.get(a)
            if v is not None and not eng.subtree(st, a)[1:]: st.mem[d] = v
            else: eng.copy_tree(st, a, d)
        else: st.mem[d] = a
    @I
    def mktuple(eng, st, fr, fn, this, args, node):
        t = tmp(fr, node); eng.kill_tree(st, t)
        for i, a in enumerate(args): put(eng, st, Loc(t.base, t.path + ('#t%d' % i,)), a)
        return t
    T['std::make_tuple'] = T['std::make_pair'] = mktuple
    @I
    def tuplector(eng, st, fr, fn, this, args, node):
        if fn.get('copy') or fn.get('move'): return NotImplemented
        if len(args) == 1 and isinstance(args[0], Loc) and 'tuple' in (fn.get('p') or [''])[0]:
            eng.copy_tree(st, args[0], this); return this
        eng.kill_tree(st, this)
        for i, a in enumerate(args): put(eng, st, Loc(this.base, this.path + ('#t%d' % i,)), a)
        return this
    T['std::tuple::tuple'] = tuplector
    @I
    def tupleass(eng, st, fr, fn, this, args, node):
        if not isinstance(args[0], Loc) or not isinstance(this, Loc): return NotImplemented
        eng.copy_tree(st, args[0], this); return this
    T['std::tuple::operator='] = tupleass
    @I
    def get(eng, st, fr, fn, this, args, node):
        i = re.search(r'get<(\d+)', fn['q'])
        if not i or not isinstance(args[0], Loc): return NotImplemented
        return Loc(args[0].base, args[0].path + ('#t' + i.group(1),))
    T['std::get'] = get
    # callables: the value of a std::function object is the callable or 0
    def callee(eng, st, a):
        v = st.mem.get(a) if isinstance(a, Loc) else a
        return v
    @I
    def fnctor(eng, st, fr, fn, this, args, node):
        if not args: st.mem[this] = ZERO; return this
        a = args[0]
        v = callee(eng, st, a)
        if v is None: v = eng.objval(st, a)
        eng.kill_tree(st, this)
        st.mem[this] = v
        return this
    T['std::function::function'] = fnctor
    T['std::function::operator='] = fnctor
    @I
    def bind(eng, st, fr, fn, this, args, node):
        t = tmp(fr, node); eng.kill_tree(st, t)
        vs = []
        for a in args:
            v = callee(eng, st, a)
            vs.append(v if v is not None else (eng.objval(st, a)))
        if not isinstance(vs[0], (FnRef, Lam, Poly, Opq)): return NotImplemented
        st.mem[t] = Opq('bind', tuple(vs)) if not (isinstance(vs[0], Poly) and vs[0] == ZERO) else Opq('bindnull', ())
        return t
    T['std::bind'] = bind
    @I
    def fnbool(eng, st, fr, fn, this, args, node):
        v = st.mem.get(this)
        if isinstance(v, Poly): return C(int(v != ZERO)) if v.const() is not None else v
        if isinstance(v, (FnRef, Lam, Bound)) or isinstance(v, Opq) and v.tag in ('bind', 'callable'): return ONE
        if isinstance(v, Opq) and v.tag == 'bindnull': return ONE
        return eng.unknown('bool', 'fn')
    T['std::function::operator bool'] = fnbool
    @I
    def fncall(eng, st, fr, fn, this, args, node):
        v = st.mem.get(this)
        L(eng, st, fr, node, 'call', this, v)
        return ZERO if fn.get('r') == 'void' else NotImplemented
    T['std::function::operator()'] = fncall
    @I
    def str3(eng, st, fr, fn, this, args, node):
        """std::string(view.data(), view.size()) and std::string(const char*)"""
        if not args: st.mem[this] = Opq('str', ()); return this
        v = args[0]
        if isinstance(v, Loc) and v.base and v.base[0] == 'str': st.mem[this] = Opq('text', (v.base[1], args[1] if len(args) > 1 and isinstance(args[1], Poly) else None)); return this
        return NotImplemented
    return T
