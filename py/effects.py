"""Side-effect analysis over the typed syntax trees: for every function the set of roots (this, parameter, capture, variable of
static storage) whose memory it may write, with the write sites; flow-insensitive aliasing of local pointers, references,
iterators and smart pointers; least fixed point over the call graph."""
import re
from facts import *

T = 'this'
SYNC = re.compile(r'std::(atomic|mutex|recursive_mutex|shared_mutex|timed_mutex|once_flag|condition_variable|__atomic)')
LOCKS = re.compile(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)<')
PTRCLS = re.compile(r'^(const )?(std::(unique_ptr|shared_ptr|weak_ptr|reference_wrapper|span|basic_string_view|initializer_list|_Deque_iterator|_List_iterator|_Bit_iterator|reverse_iterator|__detail::_Node_iterator|_Rb_tree_iterator|__detail::_Node_const_iterator|_Rb_tree_const_iterator|move_iterator|back_insert_iterator)|__gnu_cxx::__normal_iterator)\b')
# members of library classes that are not const but change nothing
PURE = {'begin', 'end', 'rbegin', 'rend', 'operator[]', 'at', 'front', 'back', 'data', 'get', 'operator*', 'operator->', 'find', 'lower_bound', 'upper_bound', 'top', 'c_str', 'value',
        'equal_range', 'base', 'operator bool', 'valid', 'get_deleter', 'first', 'second', 'rdbuf', 'good', 'operator+', 'operator-', 'operator()'}
MAPLIKE = re.compile(r'std::(unordered_)?map<')
PASS = {'move', 'forward', 'addressof', 'as_const', '__addressof', 'launder', 'ref', 'cref', 'tie', 'forward_as_tuple', 'get', 'visit', 'holds_alternative', 'get_if', 'begin', 'end', 'data', 'size', 'move_if_noexcept',
        'make_pair', 'make_tuple', 'make_shared', 'make_unique', 'min', 'max', 'find', 'find_if', 'find_if_not', 'count', 'count_if', 'all_of', 'any_of', 'none_of', 'equal', 'mismatch', 'distance', 'next', 'prev',
        'lexicographical_compare', 'accumulate', 'search', 'adjacent_find', 'lower_bound', 'upper_bound', 'binary_search', 'for_each', 'make_move_iterator', 'back_inserter', 'make_reverse_iterator', 'cbegin', 'cend', 'rbegin', 'rend',
        'async', 'bind', 'printf', 'fprintf', 'strlen', 'memcmp', 'strcmp', 'memchr', 'getline', 'hash'}
# algorithms: indices of the arguments they write through
OUTARG = {'copy': (2,), 'copy_n': (2,), 'copy_if': (2,), 'copy_backward': (2,), 'move_backward': (2,), 'transform': (2, 3), 'reverse_copy': (2,), 'fill': (0,), 'fill_n': (0,), 'generate': (0,), 'generate_n': (0,), 'reverse': (0,),
          'sort': (0,), 'stable_sort': (0,), 'rotate': (0,), 'unique': (0,), 'remove': (0,), 'remove_if': (0,), 'replace': (0,), 'replace_if': (0,), 'swap': (0, 1), 'iter_swap': (0, 1), 'swap_ranges': (0, 2), 'memcpy': (0,), 'memmove': (0,),
          'memset': (0,), 'strcpy': (0,), 'exchange': (0,), 'advance': (), 'iota': (0,), 'nth_element': (0,), 'partial_sort': (0,), 'random_shuffle': (0,), 'shuffle': (0,), 'uninitialized_copy': (2,), '__copy_move_a': (2,), 'sprintf': (0,), 'snprintf': (0,)}

def strip(t): return t.rstrip().removesuffix('&&').removesuffix('&').strip()
def isref(t): return t.rstrip().endswith('&')
def isptr(t): return strip(t).rstrip().removesuffix('const').rstrip().endswith('*') or bool(PTRCLS.match(strip(t))) or strip(t).endswith('iterator')
def readonly_param(t):
    """the type promises that the argument's memory is only read"""
    t = t.strip()
    if t.endswith('&&'): return False
    if t.endswith('&'):
        return strip(t).startswith('const ') and not re.search(r'\*$', strip(t)) or bool(re.match(r'^const .*\* const$', strip(t)))
    if t.removesuffix('const').rstrip().endswith('*'):
        b = t.removesuffix('const').rstrip()[:-1].rstrip()
        return b.startswith('const ') and not b.endswith('*')
    return 'basic_string_view' in t
def method_const(fn): return bool(fn.get('const'))

class Effects:
    def __init__(self, F):
        self.F = F
        self.W = {}        # function -> {root: {site key: site}}
        self.R = {}        # function -> roots of the returned reference / pointer
        self.fns = {i: f for i, f in F.fns.items() if 'blocks' in f and f.get('nodes')}
        self.byid = self.fns
        self.info = {}
        self.undecided = []
        self.n_sites = 0
        for i in self.fns: self.W[i] = {}; self.R[i] = frozenset()
        for i, f in self.fns.items(): self.info[i] = self.prep(f)
        self.callers = {}
        work = list(self.fns)
        rounds = 0
        while work and rounds < 60:
            rounds += 1
            nxt = set()
            for i in work:
                before = (self.R[i], {r: frozenset(s) for r, s in self.W[i].items()})
                self.analyse(self.fns[i])
                if (self.R[i], {r: frozenset(s) for r, s in self.W[i].items()}) != before:
                    nxt |= self.callers.get(i, set())
            work = [i for i in nxt if i in self.fns]
        self.n_sites = 0
        for f in self.fns.values(): self.analyse(f)
    # ---- per function preparation
    def prep(self, f):
        N = f['nodes']
        par = {}
        for n in N:
            for c in n.get('c') or []:
                if c is not None: par[c] = n['id']
            for d in n.get('ds') or []:
                if d.get('init') is not None: par[d['init']] = n['id']
        decls = {d['id']: d for d in f['decls']}
        owned = {p['d'] for p in f['params'] if 'd' in p}
        inits = {}
        skip = set()
        for n in N:
            for d in n.get('ds') or []:
                owned.add(d['d'])
                dd = decls.get(d['d'])
                if d.get('init') is not None:
                    if dd and dd['k'] == 'staticlocal': skip |= self.subtree(f, d['init'])
                    inits.setdefault(d['d'], []).append(d['init'])
            if n['k'] in ('BinaryOperator',) and n.get('op') == '=':
                l = N[n['c'][0]]
                while l['k'] == 'ParenExpr': l = N[l['c'][0]]
                if l['k'] == 'DeclRefExpr' and 'd' in l: inits.setdefault(l['d'], []).append(n['c'][1])
            if n['k'] == 'CXXOperatorCallExpr' and (n.get('fn') or {}).get('n') in ('operator=', 'operator+=', 'operator-='):
                l = N[n['c'][1]]
                if l['k'] == 'DeclRefExpr' and 'd' in l: inits.setdefault(l['d'], []).append(n['c'][2])
        pidx = {p['d']: k for k, p in enumerate(f['params']) if 'd' in p}
        lam = {}
        locks = any(LOCKS.match(strip(d.get('t', ''))) for d in f['decls'] if d['k'] == 'local')
        return dict(par=par, decls=decls, owned=owned, inits=inits, skip=skip, pidx=pidx, locks=locks, memo={})
    def subtree(self, f, i):
        out, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x is None or x in out: continue
            out.add(x)
            n = f['nodes'][x]
            todo += n.get('c') or []
            todo += [d.get('init') for d in n.get('ds') or []]
        return out
    def judged(self, g):
        """a const member that callers outside its class can use is judged itself"""
        return method_const(g) and g.get('access') not in (1, 2) and not str(g.get('cls', '')).startswith('(lambda')
    # ---- roots
    def var(self, f, d, ptr):
        I = self.info[f['id']]
        dd = I['decls'].get(d)
        if dd is None: return frozenset()
        k = dd['k']
        if k in ('global', 'staticlocal'):
            if dd.get('tls') or dd.get('cx') or str(dd.get('q', '')).startswith('std::'): return frozenset()
            q = dd.get('q') if k == 'global' else f['q'] + '::' + dd['n']
            if ptr and not (isptr(dd['t']) or isref(dd['t'])): return frozenset()
            return frozenset([('G', q, strip(dd['t']))])
        if k not in ('param', 'local', 'binding'): return frozenset()
        if f.get('lambda') or f.get('cls', '').startswith('(lambda') if False else (d not in I['owned']): return frozenset([('C', dd['n'])])
        t = dd['t']
        if d in I['pidx']:
            if isref(t) and isptr(t) and not ptr: base = frozenset([('Q', I['pidx'][d])])     # the pointer itself
            elif isref(t) or ptr and isptr(t): base = frozenset([('P', I['pidx'][d])])
            else: base = frozenset()
            if ptr and isptr(t) and not isref(t): return base | self.vals(f, I['inits'].get(d, ()))
            return base
        if isref(t): return self.union(self.lv(f, i) for i in I['inits'].get(d, ()))
        if ptr and isptr(t): return self.vals(f, I['inits'].get(d, ()))
        if k == 'binding': return self.union(self.lv(f, i) for i in I['inits'].get(d, ()))
        return frozenset()
    def union(self, xs):
        r = frozenset()
        for x in xs: r |= x
        return r
    def vals(self, f, ids): return self.union(self.val(f, i) for i in ids)
    def guard(self, key, calc):
        m = self.memo
        if key in m: return m[key]
        m[key] = frozenset()
        r = calc()
        m[key] = r
        return r
    def lv(self, f, i):
        """roots of the object an lvalue designates"""
        if i is None: return frozenset()
        return self.guard((f['id'], i, 'l'), lambda: self._lv(f, i))
    def val(self, f, i):
        """roots of what a pointer-like value points to"""
        if i is None: return frozenset()
        return self.guard((f['id'], i, 'v'), lambda: self._val(f, i))
    def _lv(self, f, i):
        n = f['nodes'][i]; k = n['k']; c = n.get('c') or []
        if k == 'DeclRefExpr':
            return self.var(f, n['d'], False) if 'd' in n else frozenset()
        if k == 'MemberExpr':
            if 'm' not in n and 'fn' in n: return self.lv(f, c[0]) if not n.get('arrow') else self.val(f, c[0])
            base = self.val(f, c[0]) if n.get('arrow') else self.lv(f, c[0])
            ft = self.field_type(n.get('m'))
            return base
        if k == 'UnaryOperator':
            if n.get('op') == '*': return self.val(f, c[0])
            return self.lv(f, c[0])
        if k == 'ArraySubscriptExpr': return self.val(f, c[0]) | (self.val(f, c[1]) if isptr(f['nodes'][c[1]].get('t', '')) else frozenset())
        if k == 'ConditionalOperator': return self.lv(f, c[1]) | self.lv(f, c[2])
        if k == 'BinaryOperator' and n.get('op') == ',': return self.lv(f, c[1])
        if k in ('BinaryOperator', 'CompoundAssignOperator'): return self.lv(f, c[0])
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return self.ret(f, n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'): return frozenset()
        if k == 'CXXThisExpr': return frozenset()
        if c: return self.lv(f, c[0])
        return frozenset()
    def _val(self, f, i):
        n = f['nodes'][i]; k = n['k']; c = n.get('c') or []
        if k == 'CXXThisExpr': return frozenset([('C', 'this')]) if str(f.get('cls', '')).startswith('(lambda') or f.get('lambda') else frozenset([T])
        if k == 'DeclRefExpr': return self.var(f, n['d'], True) if 'd' in n else frozenset()
        if k == 'MemberExpr': return self.lv(f, i)
        if k == 'UnaryOperator':
            if n.get('op') == '&': return self.lv(f, c[0])
            if n.get('op') == '*': return self.val(f, c[0])
            return self.val(f, c[0])
        if k == 'ArraySubscriptExpr': return self.lv(f, i)
        if k == 'ConditionalOperator': return self.val(f, c[1]) | self.val(f, c[2])
        if k == 'BinaryOperator':
            if n.get('op') == ',': return self.val(f, c[1])
            if n.get('op') == '=': return self.val(f, c[1])
            return self.union(self.val(f, x) for x in c if isptr(f['nodes'][x].get('t', '')))
        if k == 'CompoundAssignOperator': return self.val(f, c[0])
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return self.ret(f, n)
        if k == 'CXXNewExpr': return frozenset()
        if k == 'ImplicitCastExpr' and n.get('ck') == 'ArrayToPointerDecay': return self.lv(f, c[0])
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if isptr(n.get('t', '')): return self.union(self.val(f, x) for x in c if isptr(f['nodes'][x].get('t', '')))
            return frozenset()
        if k == 'InitListExpr' or k == 'LambdaExpr': return frozenset()
        if c: return self.val(f, c[0])
        return frozenset()
    def field_type(self, q): return None
    def args(self, n, f):
        """(receiver node or None, argument nodes)"""
        c = n.get('c') or []
        fn = n.get('fn') or {}
        k = n['k']
        if k == 'CXXMemberCallExpr': return c[0], list(c[1:])
        if k == 'CXXOperatorCallExpr':
            if fn.get('cls') and not fn.get('static') and self.member_op(fn, c): return c[1], list(c[2:])
            return None, list(c[1:])
        if k == 'CallExpr': return None, list(c[1:])
        return None, list(c)
    def member_op(self, fn, c): return len(c) - 1 == len(fn.get('p') or ()) + 1
    def recv(self, f, n, r):
        """roots of the receiver object"""
        if n['k'] == 'CXXMemberCallExpr':
            m = f['nodes'][r]
            while m['k'] != 'MemberExpr' and m.get('c'): m = f['nodes'][m['c'][0]]
            if m['k'] == 'MemberExpr':
                b = m['c'][0] if m.get('c') else None
                if b is None: return frozenset(), None
                bt = f['nodes'][b].get('t', '')
                if m.get('arrow'): return self.val(f, b), re.sub(r'\s*\*\s*(const)?$', '', bt)
                if isptr(bt): return self.val(f, b), bt
                return self.lv(f, b), bt
            return frozenset(), None
        t = f['nodes'][r].get('t', '')
        return (self.val(f, r) if isptr(t) else self.lv(f, r)), t
    def target(self, f, n):
        fn = n.get('fn')
        if fn is None and n['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and n.get('c'):
            m = f['nodes'][n['c'][0]]
            while m['k'] not in ('DeclRefExpr', 'MemberExpr') and m.get('c'): m = f['nodes'][m['c'][0]]
            fn = m.get('fn')
        return fn
    def argroots(self, f, a, pt):
        t = f['nodes'][a].get('t', '')
        if isref(pt): return self.val(f, a) if isptr(t) else self.lv(f, a)
        if isptr(pt): return self.val(f, a)
        return frozenset()
    def ret(self, f, n):
        fn = self.target(f, n)
        if fn is None: return frozenset()
        r, args = self.args(n, f)
        rt = fn.get('r', '')
        g = self.byid.get(fn.get('id'))
        p = fn.get('p') or []
        if g is not None:
            self.callers.setdefault(g['id'], set()).add(f['id'])
            out = frozenset()
            for x in self.R[g['id']]:
                if x == T: out |= self.recv(f, n, r)[0] if r is not None else frozenset()
                elif x[0] == 'Q':
                    if x[1] < len(args): out |= self.lv(f, args[x[1]])
                elif x[0] == 'P':
                    if x[1] < len(args): out |= self.argroots(f, args[x[1]], p[x[1]] if x[1] < len(p) else '&')
                elif x[0] == 'G': out |= {x}
            return out
        if not (isref(rt) or isptr(rt) or 'iterator' in rt): return frozenset()
        if r is not None: return self.recv(f, n, r)[0]
        return self.union(self.argroots(f, a, p[k] if k < len(p) else '&') for k, a in enumerate(args))
    # ---- writes
    def fieldof(self, f, i):
        """the member of the enclosing object an expression goes through"""
        N = f['nodes']; last = None
        for _ in range(60):
            if i is None: break
            n = N[i]; c = n.get('c') or []
            if n['k'] == 'MemberExpr' and 'm' in n: last = n['m'].split('::')[-1]
            if n['k'] == 'DeclRefExpr' and 'd' in n:
                x = self.info[f['id']]['inits'].get(n['d'])
                if x and last is None and x[0] != i: i = x[0]; continue
                break
            if not c: break
            i = c[1] if n['k'] == 'CXXOperatorCallExpr' and len(c) > 1 else c[0]
        return last
    def site(self, f, n, what, via=None):
        file = n.get('f') or f['file']
        key = (file, n.get('l'), f['q'], what)
        return key, dict(file=file, line=n.get('l'), function=f['q'], what=what, intro=f['q'])
    def add(self, f, roots, key, site):
        for r in roots:
            d = self.W[f['id']].setdefault(r, {})
            if key not in d: d[key] = site
    def analyse(self, f):
        self.memo = {}
        I = self.info[f['id']]
        N = f['nodes']
        rets = frozenset()
        if isref(f.get('r', '')) or isptr(f.get('r', '')):
            for n in N:
                if n['k'] == 'ReturnStmt' and n.get('c') and n['c'][0] is not None:
                    rets |= self.lv(f, n['c'][0]) if isref(f['r']) else self.val(f, n['c'][0])
        self.R[f['id']] = rets
        for n in N:
            if n['id'] in I['skip']: continue
            k = n['k']; c = n.get('c') or []
            if k == 'BinaryOperator' and n.get('op') == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n.get('op') in ('++', '--', 'p++', 'p--', '++post', '--post'):
                self.write(f, I, n, c[0])
            elif k == 'UnaryOperator' and str(n.get('op', '')).strip() and any(x in n['op'] for x in ('++', '--')): self.write(f, I, n, c[0])
            elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'): self.call(f, I, n)
            elif k == 'CXXDeleteExpr' and c:
                if I['locks']: continue
                key, s = self.site(f, n, 'frees memory'); self.add(f, self.val(f, c[0]) - {T} if f.get('dtor') else self.val(f, c[0]), key, s)
            elif k == 'LambdaExpr':
                g = self.byid.get((n.get('fn') or {}).get('id'))
                if g is None: continue
                a = n['id']; once = False
                while a in I['par']:
                    a = I['par'][a]
                    if N[a]['k'] == 'CallExpr' and str((self.target(f, N[a]) or {}).get('n', '')).startswith('call_once'): once = True
                if once: continue       # runs once, synchronised with every caller
                self.callers.setdefault(g['id'], set()).add(f['id'])
                caps = {}
                for cp in n.get('caps') or []:
                    if cp.get('this'): caps['this'] = self.val(f, cp['init'])
                    else:
                        nm = None
                        m = N[cp['init']]
                        while m['k'] != 'DeclRefExpr' and m.get('c'): m = N[m['c'][0]]
                        dd = I['decls'].get(m.get('d'))
                        if dd: caps[dd['n']] = self.lv(f, cp['init']) if cp.get('ref') else self.val(f, cp['init'])
                for r, ss in list(self.W[g['id']].items()):
                    tgt = caps.get(r[1], frozenset()) if r != T and r[0] == 'C' else frozenset([r]) if r != T and r[0] == 'G' else frozenset()
                    for key, s in list(ss.items()): self.add(f, tgt, key, s)
    def write(self, f, I, n, l):
        N = f['nodes']
        m = N[l]
        while m['k'] in ('ParenExpr', 'ImplicitCastExpr') and m.get('c'): m = N[m['c'][0]]
        if SYNC.search(str(m.get('t', ''))) or I['locks']: return
        self.n_sites += 1
        nm = m.get('n') or (m.get('m') or '').split('::')[-1]
        if m['k'] == 'DeclRefExpr' and 'd' in m: nm = I['decls'].get(m['d'], {}).get('n', nm)
        key, s = self.site(f, n, 'writes ' + (nm or 'memory'))
        s['field'] = self.fieldof(f, l)
        self.add(f, self.lv(f, l), key, s)
    def call(self, f, I, n):
        fn = self.target(f, n)
        if fn is None or I['locks']: return
        r, args = self.args(n, f)
        p = fn.get('p') or []
        g = self.byid.get(fn.get('id'))
        name = fn.get('n', '')
        short = re.sub(r'<.*', '', name)
        self.n_sites += 1
        if g is not None:
            self.callers.setdefault(g['id'], set()).add(f['id'])
            for x, ss in list(self.W[g['id']].items()):
                if x == T:
                    if fn.get('ctor') or fn.get('dtor') or method_const(fn) and self.judged(g): continue
                    if r is None: continue
                    tgt = self.recv(f, n, r)[0]
                elif x[0] == 'Q':
                    if x[1] >= len(args): continue
                    tgt = self.lv(f, args[x[1]])
                elif x[0] == 'P':
                    if x[1] >= len(args) or readonly_param(g['p'][x[1]]): continue       # judged in the callee
                    tgt = self.argroots(f, args[x[1]], g['p'][x[1]])
                elif x[0] == 'G': tgt = frozenset([x])
                else: continue
                if not tgt: continue
                for key, s in list(ss.items()): self.add(f, tgt, key, dict(s, intro=f['q'], field=self.fieldof(f, args[x[1]] if x != T and x[0] in 'PQ' else r) or s.get('field')) if x == T or x[0] in 'PQ' else s)
            return
        # no body: library function, or a defaulted / implicit member
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            for a, t in zip(args, p):
                if t.endswith('&&') and strip(t).split('<')[0] == strip(n.get('t', '')).replace('const ', '').split('<')[0] and not method_const(fn):
                    key, s = self.site(f, n, 'moves from the object'); self.add(f, self.lv(f, a), key, s)
            return
        if r is not None:
            roots, t = self.recv(f, n, r)
            ot = strip(t or '')
            if method_const(fn) or SYNC.search(ot) or fn.get('static'): pass
            elif short in PURE and not (short == 'operator[]' and MAPLIKE.search(str(fn.get('cls', '')))): pass
            elif ot.startswith('const ') and '*' not in ot and not isptr(ot): pass
            elif isptr(t or '') and short in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                # the pointer itself changes, not what it points to
                m = f['nodes'][r]
                while m['k'] in ('ParenExpr', 'ImplicitCastExpr') and m.get('c'): m = f['nodes'][m['c'][0]]
                if m['k'] == 'MemberExpr' or m['k'] == 'DeclRefExpr' and isref(I['decls'].get(m.get('d'), {}).get('t', '')):
                    key, s = self.site(f, n, 'changes ' + (m.get('n') or 'a pointer')); self.add(f, self.lv(f, r), key, s)
                elif m['k'] == 'DeclRefExpr' and I['decls'].get(m.get('d'), {}).get('k') in ('global', 'staticlocal'):
                    key, s = self.site(f, n, 'changes ' + I['decls'][m['d']]['n']); self.add(f, self.var(f, m['d'], False), key, s)
            elif isptr(t or '') and short in ('reset', 'release', 'swap') or not isptr(t or ''):
                if isptr(t or ''):
                    m = f['nodes'][r]
                    while m['k'] != 'MemberExpr' and m.get('c'): m = f['nodes'][m['c'][0]]
                    b = m['c'][0] if m['k'] == 'MemberExpr' and m.get('c') else None
                    roots = self.lv(f, b) if b is not None else frozenset()
                key, s = self.site(f, n, 'calls %s' % (short,)); self.add(f, roots, key, s)
        outs = OUTARG.get(short)
        for j, a in enumerate(args):
            t = p[j] if j < len(p) else ''
            if short in PASS and r is None: continue
            if outs is not None and r is None:
                if j not in outs: continue
            elif isref(t):
                if strip(t).startswith('const ') or t.endswith('&&') and name.startswith(('push', 'emplace', 'insert', 'operator<<', 'operator>>')) and False: continue
                if t.endswith('&&'):
                    # a forwarded or moved argument
                    if f['nodes'][a].get('vk') == 'l': continue
                    src = f['nodes'][a]
                    if isptr(src.get('t', '')): continue
                if SYNC.search(t): continue
            elif t.removesuffix('const').rstrip().endswith('*'):
                # a buffer of static storage handed to a library function that may write it
                if r is not None or readonly_param(t) or 'FILE' in t or not any(x[0] == 'G' for x in self.val(f, a)): continue
                key, s = self.site(f, n, 'passes it to %s' % short); self.add(f, frozenset(x for x in self.val(f, a) if x[0] == 'G'), key, s)
                continue
            else: continue
            roots = self.argroots(f, a, t if (isref(t) or isptr(t)) else '&') if outs is None else (self.val(f, a) if isptr(f['nodes'][a].get('t', '')) or f['nodes'][a].get('t', '').endswith('*') else self.lv(f, a))
            key, s = self.site(f, n, 'passes it to %s' % short); self.add(f, roots, key, s)
