"""Disjunctive abstract interpreter over clang CFGs exported by tool/exporter.cpp."""
import os, sys, itertools, time
from collections import defaultdict
from poly import *
from state import *
from arith import *
import arith

sys.setrecursionlimit(20000)

class Broken(Exception):
    pass

class Budget(Exception):
    """analysis budget exceeded: the obligation is undecided"""

class Frame:
    __slots__ = ('id', 'fn', 'this', 'depth', 'pre', 'caller', 'line', 'caps', 'entry', 'thrown')
    def __init__(self, id, fn, this, depth, pre, caller, line, caps=None):
        self.id, self.fn, self.this, self.depth, self.pre, self.caller, self.line, self.caps = id, fn, this, depth, pre, caller, line, caps
    def chain(self):
        out, f = [], self
        while f:
            out.append(f.fn['q'].split('::', 3)[-1] + (':' + f.line if f.line else ''))
            f = f.caller
        return out[::-1]

class Pre:
    pass

def wto(blocks, entry):
    """Bourdoncle weak topological order: list of int | (head, sublist)"""
    succ = {b['id']: [s for s in b['s'] if s is not None] for b in blocks}
    dfn, num, stack = defaultdict(int), [0], []
    INF = 1 << 60
    def component(v):
        part = []
        for w in succ[v]:
            if dfn[w] == 0:
                visit(w, part)
        return (v, part)
    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = head = num[0]
        loop = False
        for w in succ[v]:
            m = visit(w, part) if dfn[w] == 0 else dfn[w]
            if m <= head:
                head = m; loop = True
        if head == dfn[v]:
            dfn[v] = INF
            el = stack.pop()
            if loop:
                while el != v:
                    dfn[el] = 0
                    el = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head
    p = []
    visit(entry, p)
    return p

def flat(seq):
    r = set()
    for x in seq:
        if isinstance(x, tuple):
            r.add(x[0]); r |= flat(x[1])
        else:
            r.add(x)
    return r

STRICT = os.environ.get('PGBN_STRICT')     # development aid: let modelling errors surface
class Engine:
    MAXDEPTH = 24
    PEEL = 1          # iterations of a loop that are followed separately although they branch
    stuck = None
    MAXDET = 80       # iterations of a loop that are followed as long as every state has one successor
    def __init__(self, F, intrinsics=None, max_steps=400000, cap=400):
        self.F = F
        self.intr = intrinsics or {}
        self.pres = {}
        self.steps = 0
        self.deadline = None
        self.max_steps = max_steps
        self.cap = cap
        self.alarms = {}         # key -> dict
        self.undecided = {}
        self.obl = defaultdict(int)   # rule -> obligations evaluated
        self.visited = set()          # functions analysed
        self.inv = 0
        self.unknown_calls = defaultdict(int)
        self.strict_wrap = False
        self.noreturn_hits = []
        self.hooks = {}
        self.no_inline = set()
        self.types = {}
        for q, e in F.enums.items():
            vs = [int(c['v']) for c in e['c']]
            if vs:
                ENUMS[q] = (min(min(vs), 0), max(max(vs), 2**32 - 1))
    # ------------------------------------------------------------------ reporting
    def alarm(self, rule, fr, node, msg, **kw):
        n = node if isinstance(node, dict) else None
        line = (n['l'] if n else '')
        f = n.get('f') if n else None
        file = f or (fr.fn['file'] if fr else '')
        key = (rule, file, line, msg)
        if key not in self.alarms:
            self.alarms[key] = dict(rule=rule, file=file, line=line, msg=msg,
                                    function=fr.fn['q'] if fr else '', chain=fr.chain() if fr else [], **kw)
    # ------------------------------------------------------------------ function prep
    def pre(self, fn):
        p = self.pres.get(fn['id'])
        if p is None:
            p = Pre()
            p.nodes = fn['nodes']
            p.blocks = {b['id']: b for b in fn['blocks']}
            p.decl = {d['id']: d for d in fn['decls']}
            p.wto = wto(fn['blocks'], fn['entry'])
            p.pseudo = {}
            self.pres[fn['id']] = p
        return p
    # ------------------------------------------------------------------ memory
    def read(self, st, loc, t, fr=None, node=None):
        if isinstance(loc, Word):
            h = self.hooks.get('read_word')
            return h(self, st, loc, t, fr, node) if h else fresh('w', 0, 2**32 - 1)
        if isinstance(loc, Opq):
            return self.opaque_val(loc, t)
        if not isinstance(loc, Loc):
            return self.unknown(t, 'deref')
        v = st.mem.get(loc)
        if v is not None:
            return v
        t2 = strip_ref(t)
        # inside an opaque object?
        for i in range(len(loc.path), -1, -1):
            o = st.mem.get(Loc(loc.base, loc.path[:i]))
            if isinstance(o, Opq):
                rest = loc.path[i:]
                if not rest:
                    return o
                return self.opaque_val(Opq(('fld',) + tuple(str(x) for x in rest), (o,)), t)
            if o is not None:
                break
        if is_class(t2):
            return loc
        # element of an array: a written element with a possibly equal index?
        if loc.path and isinstance(loc.path[-1], Poly):
            pre = loc.path[:-1]
            ai = self.global_array(loc, t)
            if ai is not None:
                return ai
            hit = [k for k in st.mem if k.base == loc.base and len(k.path) == len(loc.path) and k.path[:-1] == pre and isinstance(k.path[-1], Poly)]
            for k in hit:
                r = st.cmp0('==', k.path[-1] - loc.path[-1])
                if r is True:
                    return st.mem[k]
            if hit:
                return self.unknown(t, 'elem')
            z = st.mem.get(Loc(loc.base, pre + ('#fill',)))
            if z is not None:
                return z
        v = self.initial(st, loc, t)
        st.mem[loc] = v
        return v
    def global_array(self, loc, t):
        return None
    def initial(self, st, loc, t):
        return self.opaque_val(Opq(('mem', loc.base) + tuple(str(x) for x in loc.path), ()), t)
    def opaque_val(self, o, t):
        t2 = strip_ref(t)
        r = rng(t2)
        if r is not None:
            return app(('v',) + ((o.tag,) if not isinstance(o.tag, tuple) else o.tag), (o,), r[0], r[1])
        return o
    def unknown(self, t, why):
        r = rng(strip_ref(t))
        if r is not None:
            return fresh('?' + why, r[0], r[1], imp=True)
        self.inv += 1
        return Opq(('?', why, self.inv), ())
    def write(self, st, loc, v, fr=None, node=None):
        if isinstance(loc, Word):
            h = self.hooks.get('write_word')
            if h: h(self, st, loc, v, fr, node)
            return
        if not isinstance(loc, Loc):
            h = self.hooks.get('write_opq')
            if h: h(self, st, loc, v, fr, node)
            return
        h = self.hooks.get('write')
        if h: h(self, st, loc, v, fr, node)
        if loc.path and isinstance(loc.path[-1], Poly):
            pre = loc.path[:-1]
            for k in [k for k in st.mem if k.base == loc.base and len(k.path) == len(loc.path) and k.path[:-1] == pre and isinstance(k.path[-1], Poly)]:
                if k != loc and st.cmp0('==', k.path[-1] - loc.path[-1]) is not False:
                    del st.mem[k]
            if Loc(loc.base, pre + ('#fill',)) in st.mem and loc.path[-1].const() is None:
                del st.mem[Loc(loc.base, pre + ('#fill',))]
        st.mem[loc] = v
    def subtree(self, st, loc):
        n = len(loc.path)
        return [k for k in st.mem if k.base == loc.base and k.path[:n] == loc.path]
    def copy_tree(self, st, src, dst):
        """raw relocation / elision"""
        if src == dst:
            return
        if isinstance(src, Opq):
            self.kill_tree(st, dst)
            st.mem[dst] = src
            return
        if not isinstance(src, Loc):
            st.mem[dst] = src
            return
        ks = self.subtree(st, src)
        vals = [(k, st.mem[k]) for k in ks]
        self.kill_tree(st, dst)
        n = len(src.path)
        for k, v in vals:
            st.mem[Loc(dst.base, dst.path + k.path[n:])] = v
        if not ks:
            v = self.read(st, src, 'class')
            if isinstance(v, Loc):
                st.mem[dst] = Opq(('obj', src.base) + tuple(str(x) for x in src.path), ())
            else:
                st.mem[dst] = v
    def kill_tree(self, st, loc):
        for k in self.subtree(st, loc):
            del st.mem[k]
    def objval(self, st, loc):
        """hashable value of the object at loc"""
        if isinstance(loc, Loc):
            ks = self.subtree(st, loc)
            if not ks:
                v = self.read(st, loc, 'class')
                return v if not isinstance(v, Loc) else Opq(('obj', loc.base) + tuple(str(x) for x in loc.path), ())
            n = len(loc.path)
            if len(ks) == 1 and ks[0] == loc:
                return st.mem[loc]
            return Opq('struct', tuple(sorted(((k.path[n:], st.mem[k]) for k in ks), key=repr)))
        return loc
    def havoc_tree(self, st, loc, why=''):
        if isinstance(loc, Loc):
            h = self.hooks.get('havoc')
            if h and h(self, st, loc, why):
                return
            self.kill_tree(st, loc)
            self.inv += 1
            st.mem[loc] = Opq(('havoc', why, self.inv), ())
    # ------------------------------------------------------------------ values
    def truth(self, st, v):
        """Cond for v != 0 (or True/False)"""
        if isinstance(v, bool):
            return v
        if isinstance(v, Cond):
            r = st.cmp0(v.op, v.p)
            return v if r is None else r
        if isinstance(v, Poly):
            r = st.cmp0('!=', v)
            return Cond('!=', v) if r is None else r
        if isinstance(v, Opq):
            return Cond('!=', app(('bool',), (v,), 0, 1))
        return True
    def neg(self, v):
        if isinstance(v, bool):
            return not v
        if v.op == '<=':
            return Cond('<=', ONE - v.p)
        return Cond('!=' if v.op == '==' else '==', v.p)
    def split(self, st, v):
        """-> list of (state, bool)"""
        c = self.truth(st, v)
        if c is True or c is False:
            return [(st, c)]
        out = []
        for b in (True, False):
            s = st.copy()
            d = c if b else self.neg(c)
            try:
                s.assume(d.op, d.p)
                out.append((s, b))
            except Infeasible:
                pass
        return out
    def polys(self, st, v, t='int'):
        """-> list of (state, Poly)"""
        if isinstance(v, Poly):
            return [(st, v)]
        if isinstance(v, bool):
            return [(st, C(int(v)))]
        if isinstance(v, Cond):
            return [(s, C(int(b))) for s, b in self.split(st, v)]
        if isinstance(v, Opq):
            return [(st, self.opaque_val(v, t) if rng(strip_ref(t)) else app(('v',), (v,)))]
        return [(st, self.unknown('unsigned long', 'aspoly'))]
    # ------------------------------------------------------------------ running
    def call(self, st, fr, fn, this, args, node):
        """-> list of (state, value)"""
        q = fn['q']
        h = self.intr.get(q)
        if h is None:
            h = self.intr_prefix(q, fn)
        if h is not None:
            r = h(self, st, fr, fn, this, args, node)
            if r is not NotImplemented:
                return r
        body = self.F.fns.get(fn['id'])
        if body is not None and 'blocks' in body and body.get('ours') and fn['id'] not in self.no_inline:
            depth = fr.depth + 1 if fr else 0
            if depth <= self.MAXDEPTH and not self.recursive(fr, fn):
                return self.inline(st, fr, body, this, args, node)
        if fn.get('defaulted') or (body is not None and body.get('implicit')) or fn.get('copy') or fn.get('move') or fn.get('cpa') or fn.get('mva'):
            r = self.defaulted(st, fr, fn, this, args, node)
            if r is not None:
                return r
        return self.unknown_call(st, fr, fn, this, args, node)
    def intr_prefix(self, q, fn):
        return None
    def recursive(self, fr, fn):
        n = 0
        while fr:
            if fr.fn['id'] == fn['id']:
                n += 1
            fr = fr.caller
        return n >= 1
    def defaulted(self, st, fr, fn, this, args, node):
        if fn.get('copy') or fn.get('cpa') or fn.get('move') or fn.get('mva'):
            if this is not None and args:
                self.copy_obj(st, args[0], this, bool(fn.get('move') or fn.get('mva')), fr, node)
                return [(st, this)]
        if fn.get('ctor') and not args:
            return [(st, this)]
        return None
    def copy_obj(self, st, src, dst, move, fr, node):
        """memberwise copy or move of a class object"""
        if src == dst or not isinstance(dst, Loc):
            return
        if isinstance(src, Loc):
            moved = [(k, st.mem[k]) for k in self.subtree(st, src)]
            self.copy_tree(st, src, dst)
            if move:
                h = self.hooks.get('moved')
                for k, v in moved:
                    if h: h(self, st, k, v)
        elif isinstance(dst, Loc):
            self.kill_tree(st, dst)
            st.mem[dst] = src
    def unknown_call(self, st, fr, fn, this, args, node):
        self.unknown_calls[fn['q']] += 1
        h = self.hooks.get('unknown_call')
        if h:
            r = h(self, st, fr, fn, this, args, node)
            if r is not None:
                return r
        ps = fn.get('p', [])
        pure = True
        vals = []
        if this is not None:
            if fn.get('const'):
                vals.append(self.objval(st, this))
            elif not fn.get('ctor'):
                pure = False
        for i, a in enumerate(args):
            pt = ps[i] if i < len(ps) else ''
            if (is_ref(pt) and not pt.startswith('const ') and not pt.rstrip().endswith('&&')) or \
               (is_ptr(pt) and not pt.startswith('const ')):
                pure = False
            vals.append(self.objval(st, a) if isinstance(a, Loc) else a)
        if not pure:
            for i, a in enumerate(args):
                pt = ps[i] if i < len(ps) else ''
                if (is_ref(pt) and not pt.startswith('const ')) or (is_ptr(pt) and not pt.startswith('const ')):
                    self.havoc_tree(st, a, fn['n'])
            if this is not None and not fn.get('const') and not fn.get('ctor') and not fn.get('static'):
                self.havoc_tree(st, this, fn['n'])
        rt = fn.get('r', 'void')
        if fn.get('ctor') and this is not None:
            self.kill_tree(st, this)
            try:
                st.mem[this] = Opq(('ctor', fn['id']), tuple(vals))
            except TypeError:
                pass
            return [(st, this)]
        if rt == 'void':
            return [(st, ZERO)]
        if pure:
            o = Opq(('call', fn['id']), tuple(vals))
        else:
            self.inv += 1
            o = Opq(('call', fn['id'], self.inv), ())
        if is_class(rt) and not is_ref(rt) and this is not None and False:
            return [(st, o)]
        return [(st, self.opaque_val(o, rt))]
    def inline(self, st, fr, fn, this, args, node, caps=None):
        self.visited.add(fn['id'])
        pre = self.pre(fn)
        fid = ((fr.id if fr else ()) + ((node['id'] if isinstance(node, dict) else 0, fn['id']),)) if fr else ((0, fn['id']),)
        nf = Frame(fid, fn, this, (fr.depth + 1 if fr else 0), pre, fr, node['l'] if isinstance(node, dict) else '', caps)
        for i, p in enumerate(fn['params']):
            if i >= len(args):
                break
            a = args[i]
            base = Loc((fid, p['d']), ())
            self.bind(st, base, p['t'], a)
        exits = self.run(st, nf)
        out = []
        rt = fn.get('r', 'void')
        for s in exits:
            rv = s.ret
            s.ret = None
            if fn.get('ctor'):
                rv = this
            elif isinstance(rv, Loc) and not is_ref(rt) and is_class(rt):
                # class prvalue: relocate out of the callee frame
                dst = Loc((fr.id if fr else (), 't', node['id'] if isinstance(node, dict) else 0), ())
                self.copy_tree(s, rv, dst)
                rv = dst
            self.purge(s, fid)
            out.append((s, rv if rv is not None else ZERO))
        return out
    def purge(self, st, fid):
        n = len(fid)
        for k in list(st.mem):
            b = k.base
            if isinstance(b, tuple) and b and isinstance(b[0], tuple) and b[0][:n] == fid:
                del st.mem[k]
        for k in list(st.env):
            if k[0][:n] == fid:
                del st.env[k]
    def bind(self, st, base, t, a):
        if is_ref(t):
            if isinstance(a, (Loc, Word, Opq)):
                st.mem[base] = a
            else:
                tmp = Loc(base.base + ('r',), ())
                st.mem[tmp] = a
                st.mem[base] = tmp
        elif is_class(t):
            if isinstance(a, Loc):
                self.copy_tree(st, a, base)
            else:
                st.mem[base] = a
        else:
            st.mem[base] = a
    def run(self, st, fr):
        """-> list of exit states (st.ret holds the value)"""
        inb = defaultdict(list)
        inb[fr.fn['entry']].append(st)
        self.run_seq(fr.pre.wto, inb, fr)
        return self.limit(inb.get(fr.fn['exit'], []), self.cap, fr, 'exit')
    def run_seq(self, seq, inb, fr):
        for it in seq:
            if isinstance(it, tuple):
                if inb.get(it[0]):
                    self.run_loop(it[0], it[1], inb, fr)
            else:
                if it == fr.fn['exit']:
                    continue
                sts = inb.pop(it, None)
                if not sts:
                    continue
                for s in self.limit(sts, self.cap, fr, it):
                    for succ, s2 in self.block(s, fr, fr.pre.blocks[it]):
                        inb[succ].append(s2)
    # ---- state merging
    def sig(self, st):
        return (frozenset(st.mem.items()), frozenset(st.b.items()), frozenset(st.facts), st.neq, frozenset(st.ext.items()),
                frozenset(st.ghost.items()), frozenset(st.env.items()), st.ret)
    def limit(self, sts, cap, fr, b):
        if len(sts) <= 1:
            return sts
        seen, out = set(), []
        for s in sts:
            k = self.sig(s)
            if k not in seen:
                seen.add(k); out.append(s)
        if len(out) > cap:
            groups = {}
            for s in out:
                k = self.pkey(s, fr)
                if k in groups:
                    self.inv += 1
                    groups[k] = self.join(groups[k], s, ('lim', self.inv), {}, False)[0]
                else:
                    groups[k] = s
            out = list(groups.values())
            if len(out) > 4 * cap:
                raise Budget('states')
        return out
    def pkey(self, st, fr, coarse=False):
        h = self.hooks.get('pkey')
        return h(self, st, fr, coarse) if h else None
    # ---- loops
    def run_loop(self, head, body, inb, fr):
        entry = inb.pop(head)
        for s in entry:
            self.clear_env(s, fr)
        def once(states):
            loc = defaultdict(list)
            for s in states:
                for succ, s2 in self.block(s, fr, fr.pre.blocks[head]):
                    loc[succ].append(s2)
            self.run_seq(body, loc, fr)
            back = loc.pop(head, [])
            for s in back:
                self.clear_env(s, fr)
            return back, loc
        cur = self.limit(entry, self.cap, fr, head)
        n = 0
        while True:
            nsrc = len(cur)
            back, outs = once(cur)
            nout = sum(len(v) for v in outs.values())
            for k, v in outs.items():
                inb[k].extend(v)
            back = self.limit(back, self.cap, fr, head)
            if not back:
                return
            n += 1
            if n >= 64 and self.stuck:
                now = {}
                for s in back: now.setdefault(self.sig(s), s)
                if n > 64:
                    again = [k for k in now if k in prev]
                    if again:
                        self.stuck(now[again[0]], fr, head, n, False)
                        back = [s for k, s in now.items() if k not in prev]
                        if not back: return
                prev = now
            deterministic = len(back) + nout <= nsrc
            if self.stuck and deterministic and n == self.MAXDET:
                self.stuck(back[0], fr, head, n, True); return
            if deterministic and n < self.MAXDET:
                cur = back
                continue
            if not deterministic and n < self.PEEL:
                cur = back
                continue
            break
        # widening phase
        self.inv += 1
        inv = self.inv
        G, phis = {}, {}
        coarse = False
        def key(s):
            return self.pkey(s, fr, coarse)
        for s in back:
            k = key(s)
            if k in G:
                G[k], _ = self.join(G[k], s, (inv, head), phis.setdefault(k, {}), False)
            else:
                G[k] = s; phis[k] = {}
        rounds = 0
        dirty = set(G)
        out_by = {}
        back_by = {}
        while dirty:
            rounds += 1
            if rounds > 30:
                raise Budget('loop does not stabilise')
            todo, dirty = sorted(dirty, key=repr), set()
            for k in todo:
                b, o = once([G[k].copy()])
                out_by[k] = o
                for s in b:
                    k2 = key(s)
                    if k2 not in G:
                        if len(G) > 24:
                            coarse = True
                            k2 = min(G, key=repr) if k2 not in G else k2
                        if k2 not in G:
                            G[k2] = s; phis[k2] = {}; dirty.add(k2)
                            continue
                    G[k2], ch = self.join(G[k2], s, (inv, head), phis[k2], rounds >= 3)
                    if ch:
                        dirty.add(k2)
        for k in G:
            for bk, v in out_by[k].items():
                inb[bk].extend(v)
    def clear_env(self, st, fr):
        for k in [k for k in st.env if k[0] == fr.id]:
            del st.env[k]
    def join(self, A, B, inv, phis, widen):
        """A: current invariant over phi symbols (phis: slot -> symbol); B: new state. -> (state, changed)"""
        R = State()
        changed = False
        pv = {}              # phi symbol -> B's value
        for (slot, sym) in phis.items():
            pass
        phiset = set(phis.values())
        slots = {}
        def setphi(slot, pa, pb):
            nonlocal changed
            s = phis.get(slot)
            if s is not None and pa == V(s):
                pass
            else:
                s = S.fresh('phi%s.%s' % (inv[0], slotname(slot)), -BIG, BIG, None, True)
                phis[slot] = s
                phiset.add(s)
                changed = True
                newphis.append((s, pa, pb))
            pv[s] = pb
            la = A.bounds(pa); lb = B.bounds(pb)
            lo, hi = min(la[0], lb[0]), max(la[1], lb[1])
            if lo < la[0] or hi > la[1]:
                changed = True
                if widen:
                    if lo < la[0]:
                        lo = 0 if lo >= 0 else (-1 if lo >= -1 else (-2**31 if lo >= -2**31 else (-2**63 if lo >= -2**63 else -BIG)))
                    if hi > la[1]:
                        hi = 1 if hi <= 1 else (255 if hi <= 255 else (2**31 if hi <= 2**31 else (2**32 - 1 if hi < 2**32 else (2**63 if hi <= 2**63 else (2**64 - 1 if hi < 2**64 else BIG)))))
            R.b[s] = (lo, hi)
            return V(s)
        newphis = []
        def slotname(slot):
            l, sub = slot
            if isinstance(l, Loc):
                nm = '.'.join(str(p).split('::')[-1] for p in l.path) or str(l.base[-1] if isinstance(l.base, tuple) else l.base)
            else:
                nm = str(l)[-20:]
            return nm[-30:] + (sub or '')
        memo = {}
        def inB(p):
            """rewrite A's expression with every phi replaced by B's value; None if some phi has no B value yet"""
            ss = p.syms()
            need = [x for x in ss if x in phiset or (S.df[x] and any(depends(x, f) for f in phiset))]
            if not need:
                return p
            q = p
            # simultaneous substitution through temporaries
            tmp = {}
            for f in phiset:
                if any(x == f or depends(x, f) for x in q.syms()):
                    if f not in pv:
                        return None
                    tmp[f] = V(S.get(('tmpsub', f), 'tmp%d' % f))
            for f, t in tmp.items():
                q = subst_poly(q, f, t, {})
            for f, t in tmp.items():
                q = subst_poly(q, list(t.t)[0][0], pv[f], {})
            return q
        # first settle existing phis, then everything else
        items = []
        for k in A.mem:
            if k in B.mem:
                items.append((k, A.mem[k], B.mem[k], 'm'))
            else:
                changed = changed or True if k in phis else changed
        for k in A.env:
            if k in B.env:
                items.append((k, A.env[k], B.env[k], 'e'))
        for k in A.ghost:
            if k in B.ghost:
                items.append((k, A.ghost[k], B.ghost[k], 'g'))
        if A.ret is not None and B.ret is not None:
            items.append(('ret', A.ret, B.ret, 'r'))
        def polyslots(k, va, vb):
            """pairs (slot, pa, pb) of polynomial positions with matching shape"""
            if isinstance(va, Poly) and isinstance(vb, Poly):
                yield (k, ''), va, vb
            elif isinstance(va, SL) and isinstance(vb, SL):
                yield (k, '.cnt'), va.cnt, vb.cnt
            elif isinstance(va, Iter) and isinstance(vb, Iter) and va.loc == vb.loc:
                yield (k, '.it'), va.idx, vb.idx
            elif isinstance(va, Loc) and isinstance(vb, Loc) and va.base == vb.base and len(va.path) == len(vb.path):
                for i, (x, y) in enumerate(zip(va.path, vb.path)):
                    if isinstance(x, Poly) and isinstance(y, Poly):
                        yield (k, '.p%d' % i), x, y
        res = {}
        allslots = []
        for k, va, vb, w in items:
            for slot, pa, pb in polyslots(k, va, vb):
                allslots.append((slot, pa, pb))
        pend = []
        for slot, pa, pb in allslots:
            s = phis.get(slot)
            if s is not None and pa == V(s):
                res[slot] = setphi(slot, pa, pb)
            else:
                pend.append((slot, pa, pb))
        # expressions over phis or unchanged values
        rest = []
        for slot, pa, pb in pend:
            q = inB(pa)
            if q is not None and (q == pb or B.cmp0('==', q - pb) is True):
                res[slot] = pa
            else:
                rest.append((slot, pa, pb))
        # new phis; try to express by difference to another new phi
        for slot, pa, pb in rest:
            done = False
            if slot not in phis:
                for s, qa, qb in newphis:
                    d = pa - qa
                    if d == pb - qb and not any(x in phiset for x in d.syms()):
                        res[slot] = V(s) + d
                        done = True
                        break
            if not done:
                res[slot] = setphi(slot, pa, pb)
            else:
                changed = True
        def same(va, vb):
            """equal after rewriting phis"""
            if va == vb and not mentions(va):
                return True
            ok = [True]
            def f(p):
                q = inB(p)
                if q is None:
                    ok[0] = False
                    return p
                return q
            m = map_val(va, f)
            return ok[0] and m == vb
        def mentions(v):
            hit = [False]
            def f(p):
                if any(x in phiset or (S.df[x] and any(depends(x, y) for y in phiset)) for x in p.syms()):
                    hit[0] = True
                return p
            map_val(v, f)
            return hit[0]
        for k, va, vb, w in items:
            if isinstance(va, Poly) and isinstance(vb, Poly):
                v = res[(k, '')]
            elif isinstance(va, SL) and isinstance(vb, SL):
                v, ch = self.join_sl(A, B, R, k, va, vb, res[(k, '.cnt')], inv, same, inB)
                changed = changed or ch
            elif isinstance(va, Iter) and isinstance(vb, Iter) and va.loc == vb.loc:
                v = Iter(va.loc, res[(k, '.it')])
            elif isinstance(va, Loc) and isinstance(vb, Loc) and va.base == vb.base and len(va.path) == len(vb.path) and \
                    all(x == y or (isinstance(x, Poly) and isinstance(y, Poly)) for x, y in zip(va.path, vb.path)):
                v = Loc(va.base, tuple(res.get((k, '.p%d' % i), x) for i, x in enumerate(va.path)))
            elif same(va, vb):
                v = va
            elif isinstance(va, (Cond, bool, Poly)) and isinstance(vb, (Cond, bool, Poly)):
                s = S.get(('phib', inv, k), 'phib%s' % (inv[0],), 0, 1, None, True)
                v = V(s)
                if va != v: changed = True
            else:
                if w == 'g':
                    continue
                v = Opq(('phi', inv, k), ())
                if va != v: changed = True
            if w == 'm': R.mem[k] = v
            elif w == 'e': R.env[k] = v
            elif w == 'r': R.ret = v
            else: R.ghost[k] = v
        for k in A.ghost:
            if k in B.ghost and k not in R.ghost:
                R.ghost[k] = Opq(('phi', inv, k), ())
        if len(R.mem) != len(A.mem):
            changed = True
        for k in set(A.ext) | set(B.ext):
            R.ext[k] = A.ext.get(k, False) or B.ext.get(k, False)
            if R.ext[k] != A.ext.get(k, False): changed = True
        # bounds of common symbols
        for s in set(A.b) & set(B.b):
            if s not in R.b and s not in phiset:
                a, b = A.b[s], B.b[s]
                n = (min(a[0], b[0]), max(a[1], b[1]))
                if n != a: changed = True
                R.b[s] = n
        for s in A.b:
            if s not in R.b and s not in phiset:
                changed = True
        # facts
        nf = []
        for f in A.facts:
            q = inB(f)
            if q is not None and B.le0(q):
                nf.append(f)
            else:
                changed = True
        # candidate relations for new phis
        if newphis:
            refs = {ONE: None, ZERO: None}
            for slot, v in res.items():
                if not any(x in phiset for x in v.syms()):
                    refs[v] = None
            for s, pa, pb in newphis:
                if not any(x in phiset for x in pa.syms()):
                    refs[pa] = None
            refs = [r for r in refs if len(r.t) <= 3][:60]
            for s, pa, pb in newphis:
                cands = [V(s) - r for r in refs] + [r - V(s) for r in refs]
                for s2, qa, qb in newphis:
                    if s2 != s:
                        cands.append(V(s) - V(s2))
                for c in cands:
                    ca = c
                    qa_ = c
                    for s2, xa, xb in newphis:
                        qa_ = subst_poly(qa_, s2, xa, {})
                    cb = inB(c)
                    if cb is None:
                        continue
                    if A.le0(qa_) and B.le0(cb):
                        bb = R.bounds(c)
                        if bb[1] > 0:
                            nf.append(c)
        R.facts = tuple(dict.fromkeys(nf))
        nn = set()
        for p in A.neq:
            q = inB(p)
            if q is not None and B.cmp0('!=', q) is True:
                nn.add(p)
            else:
                changed = True
        R.neq = frozenset(nn)
        ne = []
        for p in A.eqs:
            if p in B.eqs: ne.append(p)
            else: changed = True
        R.eqs = tuple(ne)
        return R, changed
    def join_sl(self, A, B, R, k, va, vb, cnt, inv, same, inB):
        ch = False
        buf = va.buf
        if va.buf != vb.buf:
            buf = ('phi', inv, k)
            R.ext[buf] = A.ext.get(va.buf, True) or B.ext.get(vb.buf, True)
            if buf != va.buf:
                ch = True
        mag = va.mag
        if mag is not None:
            q = inB(mag) if vb.mag is not None else None
            if q is None or q != vb.mag:
                mag = None; ch = True
        words = []
        for i, w in va.words:
            qi = inB(i)
            for j, x in vb.words:
                if qi is not None and qi == j and same(w, x):
                    words.append((i, w))
        if len(words) != len(va.words): ch = True
        top = va.top if va.top == vb.top else ('UNK' if 'UNK' in (va.top, vb.top) else 'MZ')
        if top != va.top: ch = True
        ver = va.ver
        if va.ver != vb.ver:
            ver = ('phi', inv, k)
            if ver != va.ver: ch = True
        cor = va.corrupt or vb.corrupt
        if bool(cor) != bool(va.corrupt): ch = True
        return SL(buf, cnt, mag, tuple(words), top, ver, cor), ch
    # ------------------------------------------------------------------ blocks
    def block(self, st, fr, b):
        """-> list of (succ id, state)"""
        sts = [st]
        N = fr.pre.nodes
        for e in b['e']:
            nxt = []
            for s in sts:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('steps')
                if self.deadline and self.steps & 31 == 0 and time.process_time() > self.deadline:
                    raise Budget('time bound')
                try:
                    if isinstance(e, int):
                        r = self.ev(s, fr, e)
                        nxt.extend(r if r is not None else [s])
                    else:
                        r = self.special(s, fr, e)
                        nxt.extend(r if r is not None else [s])
                except Infeasible:
                    pass
            sts = nxt
            if not sts:
                return []
        if b.get('noret'):
            h = self.hooks.get('noreturn')
            if h:
                for s in sts: h(self, s, fr, b)
            return []
        out = []
        t = b.get('t')
        succ = b['s']
        if not t or len(succ) < 2:
            for s in sts:
                for x in succ:
                    if x is not None:
                        out.append((x, s if len(succ) == 1 else s.copy()))
                        break
            return out
        if t['k'] == 'SwitchStmt':
            return self.switch(sts, fr, b)
        if t['k'] == 'DeclStmt':
            # one-time initialisation of a static local
            ds = fr.pre.nodes[t['s']].get('ds') or []
            for s in sts:
                loc, dd = self.declloc(s, fr, ds[0]['d'])
                if s.ghost.get(('sl', loc)):
                    if succ[0] is not None: out.append((succ[0], s))
                else:
                    s.ghost['si'] = s.ghost.get('si', ()) + ((loc, bool(dd.get('tls'))),)
                    if dd.get('tls'): s.ghost[('tls', loc)] = True
                    if succ[1] is not None: out.append((succ[1], s))
            return out
        if t['k'] in ('CXXTryStmt',):
            for s in sts:
                for x in succ:
                    if x is not None: out.append((x, s.copy()))
            return out
        cond = t.get('cond')
        for s in sts:
            if cond is None:
                out.append((succ[0], s)); continue
            v = self.val(s, fr, cond)
            for s2, truth in self.split(s, v):
                x = succ[0] if truth else succ[1]
                if x is None:
                    continue
                if s2 is s and len(out) and out[-1][1] is s2:
                    s2 = s2.copy()
                if t['k'] == 'BinaryOperator' and t.get('op') in ('&&', '||'):
                    sc = (t['op'] == '||') == truth      # short circuit
                    if sc:
                        s2.env[(fr.id, t['s'])] = C(int(truth))
                    else:
                        s2.env.pop((fr.id, t['s']), None)
                elif t['k'] in ('ConditionalOperator', 'BinaryConditionalOperator'):
                    s2.env[(fr.id, ('arm', t['s']))] = 1 if truth else 2
                out.append((x, s2))
        return out
    def switch(self, sts, fr, b):
        out = []
        t = b['t']
        for s0 in sts:
            for s, p in self.polys(s0, self.val(s0, fr, t['cond'])):
                rest = [s]
                default = None
                for x in b['s']:
                    if x is None:
                        continue
                    lab = fr.pre.blocks[x].get('lab') or {}
                    if 'lo' not in lab:
                        default = x
                        continue
                    lo = self.label(fr, lab['lo']); hi = self.label(fr, lab['hi']) if 'hi' in lab else lo
                    if lo is None or hi is None: raise Budget('case label')
                    nr = []
                    for r in rest:
                        m = r.copy()
                        try:
                            if lo == hi:
                                m.assume('==', p - C(lo))
                            else:
                                m.assume('<=', C(lo) - p); m.assume('<=', p - C(hi))
                            out.append((x, m))
                        except Infeasible:
                            pass
                        n = r
                        try:
                            n.assume('!=', p - C(lo))
                            nr.append(n)
                        except Infeasible:
                            pass
                    rest = nr
                if default is None:
                    # last successor of a switch without default
                    default = b['s'][-1]
                for r in rest:
                    out.append((default, r))
        return out
    def label(self, fr, i):
        n = fr.pre.nodes[i]
        while n.get('cv') is None and n.get('c'): n = fr.pre.nodes[n['c'][0]]
        if n.get('cv') is not None: return int(n['cv'])
        return int(n['v']) if n['k'] in ('IntegerLiteral', 'CharacterLiteral') else None
    def special(self, st, fr, e):
        k = e['k']
        if k == 'init':
            if e.get('m') is None:
                # delegated construction, construction of a base of this program: the parts belong to this object
                if (e.get('deleg') or e.get('base') in self.F.records) and e.get('e') is not None and isinstance(fr.this, Loc):
                    v = self.val(st, fr, e['e'])
                    if isinstance(v, Loc) and v != fr.this:
                        self.copy_tree(st, v, fr.this)
                        self.drop_temp(st, v, fr)
                return None
            m = e['m'] if e['m'].count('::') else e['m']
            dst = Loc(fr.this.base, fr.this.path + (m,)) if isinstance(fr.this, Loc) else None
            if e.get('e') is None or dst is None:
                return None
            mt = e.get('mt', '')
            v = self.val(st, fr, e['e'])
            if is_class(mt) and not is_ref(mt):
                if isinstance(v, Loc):
                    self.copy_tree(st, v, dst)
                    self.drop_temp(st, v, fr)
                else:
                    st.mem[dst] = v
            else:
                st.mem[dst] = v
            return None
        if k == 'dtor':
            d = e.get('d')
            if d is not None:
                loc = Loc((fr.id, d), ())
                h = self.hooks.get('dtor')
                if h:
                    r = h(self, st, fr, e, loc)
                    if r is not None:
                        return r
                fn = e.get('fn')
                body = self.F.fns.get(fn['id']) if fn else None
                if body is not None and 'blocks' in body and body.get('ours') and not body.get('defaulted') and not body.get('implicit'):
                    key = ('#ret', fr.id)
                    if st.ret is not None: st.ghost[key] = st.ret
                    r = [s for s, _ in self.inline(st, fr, body, loc, [], {'id': ('dtor', d), 'l': e.get('l', '')})]
                    for s in r:
                        self.kill_tree(s, loc)
                        if key in s.ghost: s.ret = s.ghost.pop(key)
                    return r
                self.kill_tree(st, loc)
            return None
        return None
    def drop_temp(self, st, v, fr):
        if isinstance(v.base, tuple) and len(v.base) == 3 and v.base[1] == 't' and not v.path:
            self.kill_tree(st, v)
    # ------------------------------------------------------------------ expressions
    def val(self, st, fr, nid):
        v = st.env.get((fr.id, nid))
        if v is None:
            r = self.ev(st, fr, nid)
            v = st.env.get((fr.id, nid))
            if v is None:
                n = fr.pre.nodes[nid]
                v = self.unknown(n.get('t', 'int'), 'nv-' + n['k'])
                st.env[(fr.id, nid)] = v
        return v
    def ev(self, st, fr, nid):
        n = fr.pre.nodes[nid]
        k = n['k']
        cv = n.get('cv')
        if cv is not None and n.get('vk') == 'r':
            st.env[(fr.id, nid)] = C(int(cv)) if not isinstance(cv, bool) else C(int(cv))
            return None
        h = getattr(self, 'x_' + k, None)
        if h is None:
            c = n.get('c')
            if c and len(c) == 1 and n.get('t'):
                st.env[(fr.id, nid)] = self.val(st, fr, c[0])
            return None
        try: return h(st, fr, n)
        except (AttributeError, TypeError, LookupError, ValueError, AssertionError, ZeroDivisionError) as e:
            if STRICT: raise
            raise Budget('not modelled: %s:%s (%r)' % (fr.fn['q'], n.get('l'), e))
    def put(self, st, fr, n, v):
        st.env[(fr.id, n['id'])] = v
    def x_IntegerLiteral(self, st, fr, n): self.put(st, fr, n, C(int(n['v'])))
    x_CharacterLiteral = x_IntegerLiteral
    def x_FloatingLiteral(self, st, fr, n): self.put(st, fr, n, Opq('float', (n.get('v'),)))
    def x_CXXBoolLiteralExpr(self, st, fr, n): self.put(st, fr, n, C(int(n['v'] in (True, 'true', 1, '1'))))
    def x_CXXNullPtrLiteralExpr(self, st, fr, n): self.put(st, fr, n, ZERO)
    x_GNUNullExpr = x_CXXNullPtrLiteralExpr
    def x_StringLiteral(self, st, fr, n): self.put(st, fr, n, Loc(('str', n.get('v', '')), ()))
    def x_CXXThisExpr(self, st, fr, n):
        self.put(st, fr, n, fr.this if fr.this is not None else Opq('this', (fr.fn['id'],)))
    def owned(self, fr):
        o = getattr(fr.pre, 'owned', None)
        if o is None:
            o = {p['d'] for p in fr.fn['params']}
            for n in fr.pre.nodes:
                for d in n.get('ds') or []:
                    o.add(d['d'])
                    for b in d.get('bind') or []: o.add(b['d'] if isinstance(b, dict) else b)
            fr.pre.owned = o
        return o
    def lam_call(self, st, fr, lam, args, node):
        body = self.F.fns.get(lam.fn.f['id']) if lam.fn else None
        if body is None or 'blocks' not in body or (fr and (fr.depth + 1 > self.MAXDEPTH or self.recursive(fr, body))): return None
        caps = dict(lam.caps)
        return self.inline(st, fr, body, caps.get('this'), args, node, caps)
    def declloc(self, st, fr, d):
        dd = fr.pre.decl[d]
        if dd['k'] in ('param', 'local', 'binding'):
            if fr.caps and dd['n'] in fr.caps and d not in self.owned(fr):
                return fr.caps[dd['n']], dict(dd, t=no_ref(dd['t']))
            return Loc((fr.id, d), ()), dd
        if dd['k'] == 'staticlocal':
            loc = Loc(('g', fr.fn['q'], dd['n']), ())
        else:
            loc = Loc(('g', dd['q']), ())
            self.init_global(st, loc, dd['q'])
        if is_ref(dd['t']) and loc not in st.mem: pass
        return loc, dd
    def init_global(self, st, loc, q):
        if st.ghost.get(('gi', q)): return
        st.ghost[('gi', q)] = True
        v = self.F.varq.get(q)
        if not v or not (v.get('const') or v.get('constexpr')) or not isinstance(v.get('val'), dict): return
        def put(l, x):
            if 'i' in x: st.mem[l] = C(int(x['i']))
            elif 'a' in x:
                for i, y in enumerate(x['a']): put(Loc(l.base, l.path + (C(i),)), y)
        put(loc, v['val'])
    def x_DeclRefExpr(self, st, fr, n):
        if 'fn' in n:
            self.put(st, fr, n, FnRef(FnBox(n['fn'])))
            return
        if 'd' not in n:
            self.put(st, fr, n, self.unknown(n.get('t', 'int'), 'ref'))
            return
        loc, dd = self.declloc(st, fr, n['d'])
        if is_ref(dd['t']) or (dd['k'] == 'binding' and loc in st.mem and isinstance(st.mem[loc], Loc) and st.mem.get(Loc(loc.base, ('#bind',)))):
            v = st.mem.get(loc)
            if v is None:
                v = Opq(('ref', fr.id if dd['k'] in ('param', 'local') else 'g', dd['q'] if dd['k'] not in ('param', 'local') else n['d']), ())
                st.mem[loc] = v
            self.put(st, fr, n, v)
        else:
            self.put(st, fr, n, loc)
    def x_MemberExpr(self, st, fr, n):
        b = self.val(st, fr, n['c'][0])
        if 'fn' in n:
            self.put(st, fr, n, Bound(b, FnBox(n['fn'])))
            return
        if 'm' not in n:
            self.put(st, fr, n, self.unknown(n.get('t', 'int'), 'member'))
            return
        m = no_targs(n['m']) if n['m'].startswith('std::') else n['m']
        if n.get('static') :
            self.put(st, fr, n, Loc(('g', n['m']), ()))
            return
        if isinstance(b, Poly):
            h = self.hooks.get('deref')
            if h: h(self, st, fr, n, b)
            self.put(st, fr, n, Opq(('nullfield', n['m']), (b,)))
            return
        h = self.hooks.get('deref')
        if h and n.get('arrow'): h(self, st, fr, n, b)
        if isinstance(b, Loc):
            l = Loc(b.base, b.path + (m,))
            ft = self.fieldtype(n['m'])
            if ft and is_ref(ft):
                v = st.mem.get(l)
                if v is None:
                    v = Opq(('refmem', str(l)), ())
                    st.mem[l] = v
                l = v
            self.put(st, fr, n, l)
        elif isinstance(b, Opq):
            base = ('opq', b)
            self.put(st, fr, n, Loc(base, (m,)))
        else:
            self.put(st, fr, n, self.unknown(n.get('t', 'int'), 'member'))
    def fieldtype(self, m):
        ft = self.types.get(m)
        if ft is None:
            cls, _, nm = m.rpartition('::')
            r = self.F.records.get(cls)
            ft = ''
            if r:
                for f in r['fields']:
                    if f['q'] == m or f['n'] == nm:
                        ft = f['t']
            self.types[m] = ft
        return ft
    # ---- casts
    def cast(self, st, fr, n, v, src):
        ck = n.get('ck')
        t = n.get('t', '')
        if ck == 'LValueToRValue':
            if isinstance(v, (Loc, Word)):
                return self.read(st, v, t, fr, n)
            if isinstance(v, Opq):
                h = self.hooks.get('read_opq')
                if h:
                    r = h(self, st, v, t, fr, n)
                    if r is not None: return r
                return self.opaque_val(v, t)
            return v
        if ck == 'IntegralCast':
            if isinstance(v, Opq):
                v = self.opaque_val(v, fr.pre.nodes[src].get('t', 'int'))
            if isinstance(v, (Cond, bool)):
                return ('fork', v)
            if isinstance(v, Poly):
                return wrap(st, v, t, self.wrapev(fr, n))
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            c = self.truth(st, v)
            return C(int(c)) if isinstance(c, bool) else c
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, Loc):
                if v.base and v.base[0] == 'str':
                    return Loc(v.base, (ZERO,))
                return Loc(v.base, v.path + (ZERO,))
            return v
        if ck == 'NullToPointer':
            return ZERO
        if ck == 'ToVoid':
            return ZERO
        return v
    def wrapev(self, fr, n):
        h = self.hooks.get('wrap')
        if not h:
            return None
        return lambda p, t: h(self, fr, n, p, t)
    def x_ImplicitCastExpr(self, st, fr, n):
        v = self.val(st, fr, n['c'][0])
        v = self.cast(st, fr, n, v, n['c'][0])
        if isinstance(v, tuple) and type(v) is tuple and v and v[0] == 'fork':
            out = []
            for s, p in self.polys(st, v[1]):
                self.put(s, fr, n, p)
                out.append(s)
            return out
        self.put(st, fr, n, v)
    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr
    def passthru(self, st, fr, n):
        if n.get('c'):
            self.put(st, fr, n, self.val(st, fr, n['c'][0]))
    x_ParenExpr = x_ExprWithCleanups = x_CXXBindTemporaryExpr = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_CXXDefaultArgExpr = x_CXXDefaultInitExpr = x_CXXStdInitializerListExpr = passthru
    def x_MaterializeTemporaryExpr(self, st, fr, n):
        v = self.val(st, fr, n['c'][0])
        if isinstance(v, Loc) and is_class(n['t']):
            self.put(st, fr, n, v)
            return
        loc = Loc((fr.id, 't', n['id']), ())
        st.mem[loc] = v
        self.put(st, fr, n, loc)
    # ---- operators
    def rv(self, st, fr, nid):
        return self.val(st, fr, nid)
    def x_UnaryOperator(self, st, fr, n):
        op = n['op']
        c = n['c'][0]
        v = self.val(st, fr, c)
        t = n.get('t', 'int')
        if op == '&' or op == '__extension__':
            self.put(st, fr, n, v); return
        if op == '*':
            if isinstance(v, FnRef):
                self.put(st, fr, n, v); return
            h = self.hooks.get('deref')
            if h: h(self, st, fr, n, v)
            if isinstance(v, Loc) and v.path and isinstance(v.path[-1], Poly) and v.path[-1] == ZERO and False:
                pass
            self.put(st, fr, n, v if not isinstance(v, Poly) else Opq('null*', (v,))); return
        if op == '!':
            c = self.truth(st, v)
            c = self.neg(c)
            self.put(st, fr, n, C(int(c)) if isinstance(c, bool) else c); return
        if op in ('++', '--'):
            old = self.read(st, v, t, fr, n)
            d = 1 if op == '++' else -1
            outs = []
            if isinstance(old, Iter):
                new = Iter(old.loc, old.idx + C(d)); cases = [(st, old, new)]
            elif isinstance(old, Loc) and is_ptr(t):
                new = self.ptradd(st, old, C(d)); cases = [(st, old, new)]
            else:
                cases = []
                for s, p in self.polys(st, old, t):
                    for s2, q in self.wrapfork(s, p + C(d), t, fr, n):
                        cases.append((s2, p, q))
            for s, o, w in cases:
                lv = s.env.get((fr.id, c), v)
                self.write(s, lv, w, fr, n)
                if n.get('post'):
                    self.put(s, fr, n, o)
                else:
                    self.put(s, fr, n, lv if n.get('vk') == 'l' else w)
                outs.append(s)
            return outs
        outs = []
        for s, p in self.polys(st, v, t):
            if op == '-': q = wrap(s, -p, t, self.wrapev(fr, n))
            elif op == '+': q = p
            elif op == '~':
                r = rng(t)
                q = (C(r[1]) - p) if r and r[0] == 0 else (C(-1) - p)
            else: q = self.unknown(t, op)
            self.put(s, fr, n, q)
            outs.append(s)
        return outs
    def wrapfork(self, st, p, t, fr, n):
        """wrap, forking when exactly two wrap counts are possible"""
        r = rng(t)
        if r is None or fits(st, p, *r):
            return [(st, p)]
        a, b = st.bounds(p)
        m = r[1] - r[0] + 1
        k0, k1 = (a - r[0]) // m, (b - r[0]) // m
        ev = self.wrapev(fr, n)
        if ev: ev(p, t)
        if k1 - k0 > 1:
            return [(st, wrap(st, p, t))]
        out = []
        for k in range(k0, k1 + 1):
            s = st.copy()
            try:
                # the polynomial can be rewritten by a substitution: keep it in the state
                s.ghost['#wrap'] = p
                s.assume('<=', C(r[0] + k * m) - p)
                s.assume('<=', s.ghost['#wrap'] - C(r[1] + k * m))
                q = s.ghost.pop('#wrap') - C(k * m)
                lo, hi = s.bounds(q)
                out.append((s, C(lo) if lo == hi else q))
            except Infeasible:
                pass
        return out
    def ptradd(self, st, p, d):
        if isinstance(p, Loc):
            if p.path and isinstance(p.path[-1], Poly):
                return Loc(p.base, p.path[:-1] + (p.path[-1] + d,))
            return Loc(p.base, p.path + (d,)) if d != ZERO else p
        if isinstance(p, Iter):
            return Iter(p.loc, p.idx + d)
        if isinstance(p, Word):
            return Word(p.loc, p.idx + d)
        if isinstance(p, Opq):
            if p.tag == 'ptr+':
                return Opq('ptr+', (p.args[0], p.args[1] + d))
            return Opq('ptr+', (p, d))
        return Opq('ptr+', (p, d)) if isinstance(p, Poly) else p
    def ptrdiff(self, a, b):
        """polynomial a - b for pointers into the same object, or None"""
        if isinstance(a, Iter) and isinstance(b, Iter) and a.loc == b.loc:
            return a.idx - b.idx
        if isinstance(a, Word) and isinstance(b, Word) and a.loc == b.loc:
            return a.idx - b.idx
        if isinstance(a, Loc) and isinstance(b, Loc) and a.base == b.base:
            pa, pb = a.path, b.path
            ia = ib = ZERO
            if pa and isinstance(pa[-1], Poly): ia, pa = pa[-1], pa[:-1]
            if pb and isinstance(pb[-1], Poly): ib, pb = pb[-1], pb[:-1]
            if pa == pb: return ia - ib
        def dec(x):
            return (x.args[0], x.args[1]) if isinstance(x, Opq) and x.tag == 'ptr+' else (x, ZERO)
        if isinstance(a, Opq) and isinstance(b, Opq):
            (x, i), (y, j) = dec(a), dec(b)
            if x == y: return i - j
        return None
    def compare(self, st, op, a, b, signed=True):
        """-> Cond/bool/Poly"""
        if isinstance(a, (Iter, Word, Loc, Opq)) or isinstance(b, (Iter, Word, Loc, Opq)):
            d = self.ptrdiff(a, b)
            if d is None and op in ('==', '!='):
                z = None
                if isinstance(a, (Loc, Word)) and isinstance(b, Poly) and b == ZERO: z = a
                if isinstance(b, (Loc, Word)) and isinstance(a, Poly) and a == ZERO: z = b
                if z is not None:
                    return C(int(op == '!='))
                if isinstance(a, Opq) and isinstance(b, Poly) and b == ZERO:
                    return Cond(op, app(('bool',), (a,), 0, 1))
                if isinstance(b, Opq) and isinstance(a, Poly) and a == ZERO:
                    return Cond(op, app(('bool',), (b,), 0, 1))
                if isinstance(a, Loc) and isinstance(b, Loc) and not self.mayalias(a, b):
                    return C(int(op == '!='))
                if isinstance(a, Opq) and isinstance(b, Opq) or True:
                    try:
                        x = app(('ptreq',), tuple(sorted((a, b), key=repr)), 0, 1)
                        return Cond('!=' if op == '==' else '==', x)
                    except TypeError:
                        return fresh('?cmp', 0, 1, imp=True)
            if d is None:
                return app(('ptrcmp', op), (a, b), 0, 1)
            p = d
        else:
            p = a - b
        if op == '==': c = Cond('==', p)
        elif op == '!=': c = Cond('!=', p)
        elif op == '<': c = Cond('<=', p + ONE)
        elif op == '<=': c = Cond('<=', p)
        elif op == '>': c = Cond('<=', ONE - p)
        else: c = Cond('<=', -p)
        r = st.cmp0(c.op, c.p)
        return C(int(r)) if r is not None else c
    def mayalias(self, a, b):
        return False if a.base != b.base else True
    def binop(self, st, fr, n, op, a, b, t, ta, tb):
        """-> list of (state, value)"""
        if op == ',':
            return [(st, b)]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(a, (Iter, Word, Loc, Opq)) or isinstance(b, (Iter, Word, Loc, Opq)):
                if not (is_int(ta) and is_int(tb)):
                    return [(st, self.compare(st, op, a, b))]
            out = []
            for s, x in self.polys(st, a, ta):
                for s2, y in self.polys(s, b, tb):
                    out.append((s2, self.compare(s2, op, x, y)))
            return out
        if is_ptr(ta) or is_ptr(tb) or isinstance(a, (Iter, Loc, Word)) or isinstance(b, (Iter, Loc, Word)):
            if op == '+':
                p, i = (a, b) if not isinstance(a, Poly) or is_ptr(ta) else (b, a)
                return [(st, self.ptradd(st, p, i))] if isinstance(i, Poly) else [(st, p)]
            if op == '-':
                if is_ptr(tb) or isinstance(b, (Iter, Loc, Word)):
                    d = self.ptrdiff(a, b)
                    return [(st, d if d is not None else app(('ptrdiff',), (a, b), -2**62, 2**62))]
                return [(st, self.ptradd(st, a, -b))] if isinstance(b, Poly) else [(st, a)]
        if not is_int(t) :
            return [(st, Opq(('op', op), (a, b)))]
        out = []
        for s, x in self.polys(st, a, ta):
            for s2, y in self.polys(s, b, tb):
                if x is not None and s2 is not s:
                    pass
                out.extend(self.arith(s2, fr, n, op, x, y, t))
        return out
    def arith(self, s, fr, n, op, x, y, t):
        h = self.hooks.get('arith')
        if h: h(self, s, fr, n, op, x, y, t)
        ev = self.wrapev(fr, n)
        if op == '+': return self.wrapfork(s, x + y, t, fr, n) if ev is None else [(s, wrap(s, x + y, t, ev))]
        if op == '-': return self.wrapfork(s, x - y, t, fr, n)
        if op == '*': return [(s, wrap(s, x * y, t, ev))]
        k = y.const()
        lo, hi = s.bounds(x)
        if op in ('/', '%'):
            dh = self.hooks.get('divide')
            if dh: dh(self, s, fr, n, x, y)
            if k is not None and k > 0 and (lo >= 0 or s.le0(-x)):
                d = fdiv(s, x, k)
                return [(s, d if op == '/' else x - d * k)]
            if x == y: return [(s, ONE if op == '/' else ZERO)]
            r = rng(t)
            if lo >= 0 and s.bounds(y)[0] >= 0:
                if op == '/':
                    d = app('udiv', (x, y), 0, hi)
                    return [(s, d)]
                m = app('umod', (x, y), 0, max(0, min(hi, s.bounds(y)[1] - 1)))
                f = m - y + ONE
                if s.cmp0('!=', y) is True or s.le0(ONE - y):
                    if f not in s.facts: s.facts = s.facts + (f,); s.memo = {}
                return [(s, m)]
            return [(s, app('sdiv' if op == '/' else 'smod', (x, y), r[0], r[1]))]
        if op == '>>':
            if k is not None:
                return [(s, fdiv(s, x, 1 << k))] if k >= 0 else [(s, self.unknown(t, 'shr'))]
            r = rng(t)
            return [(s, app('shr', (x, y), 0 if lo >= 0 else r[0], hi if lo >= 0 else r[1]))]
        if op == '<<':
            if k is not None and 0 <= k < 128:
                return [(s, wrap(s, x * (1 << k), t, ev))]
            r = rng(t)
            return [(s, app('shl', (x, y), r[0], r[1]))]
        if op in ('&', '|', '^'):
            return [(s, bitop(s, op, x, y, t))]
        return [(s, self.unknown(t, op))]
    def logical(self, st, fr, n, top=False):
        """value of a short-circuit expression from whichever of its leaves was evaluated last"""
        v = st.env.get((fr.id, n['id']))
        if v is not None: return v
        N = fr.pre.nodes
        if n['k'] in ('ParenExpr', 'ExprWithCleanups') or (n['k'] == 'ImplicitCastExpr' and n.get('ck') in ('NoOp', 'LValueToRValue') and n.get('c')
                                                           and N[n['c'][0]]['k'] in ('ParenExpr', 'BinaryOperator')):
            return self.logical(st, fr, N[n['c'][0]])
        if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||'):
            v = self.logical(st, fr, N[n['c'][1]])
            return v if v is not None else self.logical(st, fr, N[n['c'][0]])
        return None
    def logical_clear(self, st, fr, n):
        N = fr.pre.nodes
        for c in n.get('c') or []:
            st.env.pop((fr.id, c), None)
            if N[c]['k'] in ('ParenExpr', 'BinaryOperator', 'ImplicitCastExpr') and not (N[c]['k'] == 'BinaryOperator' and N[c]['op'] not in ('&&', '||')):
                self.logical_clear(st, fr, N[c])
    def x_BinaryOperator(self, st, fr, n):
        op = n['op']
        c = n['c']
        if op in ('&&', '||'):
            v = st.env.get((fr.id, n['id']))
            if v is None:
                v = self.logical(st, fr, n, True)
                if v is None:
                    v = self.unknown('bool', 'lop')
                tv = self.truth(st, v)
                v = C(int(tv)) if isinstance(tv, bool) else tv
            self.logical_clear(st, fr, n)
            self.put(st, fr, n, v)
            return
        if op == '=':
            lv = self.val(st, fr, c[0])
            v = self.val(st, fr, c[1])
            self.write(st, lv, v, fr, n)
            self.put(st, fr, n, lv if n.get('vk') == 'l' else v)
            return
        a = self.val(st, fr, c[0]); b = self.val(st, fr, c[1])
        N = fr.pre.nodes
        out = []
        for s, v in self.binop(st, fr, n, op, a, b, n.get('t', 'int'), N[c[0]].get('t', ''), N[c[1]].get('t', '')):
            self.put(s, fr, n, v)
            out.append(s)
        return out
    def x_CompoundAssignOperator(self, st, fr, n):
        c = n['c']
        N = fr.pre.nodes
        op = n['op'][:-1]
        lv = self.val(st, fr, c[0])
        b = self.val(st, fr, c[1])
        lt = N[c[0]].get('t', 'int')
        old = self.read(st, lv, lt, fr, n)
        crt = n.get('crt') or lt
        clt = n.get('clt') or lt
        out = []
        ol = old
        if isinstance(old, Poly) and rng(clt): ol = wrap(st, old, clt)
        for s, v in self.binop(st, fr, n, op, ol, b, crt, clt, N[c[1]].get('t', '')):
            if isinstance(v, Cond) or isinstance(v, bool):
                pass
            if isinstance(v, Poly) and rng(lt):
                v = wrap(s, v, lt, self.wrapev(fr, n) if strip_ref(lt) != strip_ref(crt) else None)
            lv2 = s.env.get((fr.id, c[0]), lv)
            self.write(s, lv2, v, fr, n)
            self.put(s, fr, n, lv2)
            out.append(s)
        return out
    def x_ConditionalOperator(self, st, fr, n):
        arm = st.env.pop((fr.id, ('arm', n['id'])), None)
        c = n['c']
        if arm is None:
            v = self.truth(st, self.val(st, fr, c[0]))
            arm = 1 if v is True else 2 if v is False else None
        if arm is None:
            self.put(st, fr, n, self.unknown(n.get('t', 'int'), '?:'))
        else:
            self.put(st, fr, n, self.val(st, fr, c[arm]))
        st.env.pop((fr.id, c[1]), None); st.env.pop((fr.id, c[2]), None)
    def x_ArraySubscriptExpr(self, st, fr, n):
        b = self.val(st, fr, n['c'][0]); i = self.val(st, fr, n['c'][1])
        if isinstance(b, Poly) and not isinstance(i, Poly):
            b, i = i, b
        out = []
        for s, p in self.polys(st, i, 'long'):
            h = self.hooks.get('subscript')
            if h: h(self, s, fr, n, b, p)
            self.put(s, fr, n, self.ptradd(s, b, p) if not (isinstance(b, Loc) and not (b.path and isinstance(b.path[-1], Poly))) else Loc(b.base, b.path + (p,)))
            out.append(s)
        return out
    def x_InitListExpr(self, st, fr, n):
        t = n.get('t', '')
        loc = Loc((fr.id, 't', n['id']), ())
        self.kill_tree(st, loc)
        vals = [self.val(st, fr, c) for c in n.get('c') or []]
        if t.endswith(']'):
            et = t[:t.rindex('[')].strip()
            for i, v in enumerate(vals):
                self.init_field(st, Loc(loc.base, (C(i),)), et, v)
            st.mem[Loc(loc.base, ('#fill',))] = ZERO
            self.put(st, fr, n, loc)
            return
        if not is_class(t):
            self.put(st, fr, n, vals[0] if vals else ZERO)
            return
        r = self.F.records.get(strip_ref(t))
        if r and vals is not None:
            for f, v in zip(r['fields'], vals):
                self.init_field(st, Loc(loc.base, (f['q'],)), f['t'], v)
            if not vals:
                st.mem[loc] = Opq('empty', (t,))
        else:
            st.mem[loc] = Opq(('agg', t), tuple(self.objval(st, v) for v in vals))
        self.put(st, fr, n, loc)
    def init_field(self, st, dst, t, v):
        if is_class(t) and not is_ref(t) and isinstance(v, Loc):
            self.copy_tree(st, v, dst)
        else:
            st.mem[dst] = v
    def x_ImplicitValueInitExpr(self, st, fr, n):
        self.put(st, fr, n, ZERO if not is_class(n.get('t', 'int')) else Opq('zeroinit', ()))
    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr
    def x_DeclStmt(self, st, fr, n):
        for d in n.get('ds') or []:
            dd = fr.pre.decl[d['d']]
            t = dd['t']
            if dd['k'] == 'staticlocal':
                h = self.hooks.get('staticlocal')
                if h:
                    h(self, st, fr, n, d, dd)
                    continue
                loc, _ = self.declloc(st, fr, d['d'])
                if st.ghost.get(('sl', loc)): continue
                st.ghost[('sl', loc)] = True
                if st.ghost.get('si') and st.ghost['si'][-1][0] == loc: st.ghost['si'] = st.ghost['si'][:-1]
                self.kill_tree(st, loc)
                v = self.val(st, fr, d['init']) if d.get('init') is not None and t.startswith('const ') else None
                if isinstance(v, Loc) and (is_class(t) or t.endswith(']')):
                    self.copy_tree(st, v, loc)
                    self.drop_temp(st, v, fr)
                elif isinstance(v, Poly) and v.const() is not None or isinstance(v, Loc):
                    st.mem[loc] = v
                # a value that depends on this call's inputs says nothing about the call that initialised it
                todo, seen = [loc], set()
                while todo:
                    l = todo.pop()
                    if l in seen: continue
                    seen.add(l)
                    for k in list(self.subtree(st, l)):
                        x = st.mem[k]
                        if isinstance(x, Poly) and x.const() is None:
                            st.mem[k] = self.unknown('int', 'static')
                        elif isinstance(x, Loc): todo.append(x)
                continue
            loc = Loc((fr.id, d['d']), ())
            self.kill_tree(st, loc)
            i = d.get('init')
            if i is None:
                if is_class(t):
                    pass
                else:
                    st.mem[loc] = self.unknown(t, 'uninit') if not t.endswith(']') else None
                    if st.mem[loc] is None: del st.mem[loc]
                continue
            v = self.val(st, fr, i)
            if is_ref(t):
                if isinstance(v, (Loc, Word, Opq)):
                    st.mem[loc] = v
                else:
                    tmp = Loc((fr.id, 'lt', d['d']), ())
                    st.mem[tmp] = v
                    st.mem[loc] = tmp
            elif isinstance(v, Loc) and (is_class(t) or t.endswith(']')):
                self.copy_tree(st, v, loc)
                self.drop_temp(st, v, fr)
            else:
                st.mem[loc] = v
            if d.get('bind'):
                self.bindings(st, fr, d, v)
    def bindings(self, st, fr, d, v):
        for i, b in enumerate(d['bind']):
            bid = b['d'] if isinstance(b, dict) else b
            loc = Loc((fr.id, bid), ())
            src = v
            if isinstance(src, Loc):
                src = st.mem.get(Loc(src.base, src.path)) or src
                src = st.mem.get(Loc((fr.id, d['d']), ()), src)
            if isinstance(src, Opq) and src.tag == 'tuple':
                st.mem[loc] = src.args[i]
            else:
                bt = fr.pre.decl[bid]['t']
                st.mem[loc] = self.opaque_val(Opq(('get', i), (src,)), bt) if not isinstance(src, Loc) else self.unknown(bt, 'bind')
    def x_ReturnStmt(self, st, fr, n):
        c = n.get('c')
        if c and c[0] is not None:
            st.ret = self.val(st, fr, c[0])
        else:
            st.ret = ZERO
        st.ghost['retline'] = n['l'] if fr.depth == 0 else st.ghost.get('retline')
    def x_LambdaExpr(self, st, fr, n):
        caps = []
        for cp in n.get('caps') or []:
            if cp.get('this'):
                caps.append(('this', fr.this)); continue
            if cp.get('d') is None: continue
            loc, dd = self.declloc(st, fr, cp['d'])
            src = st.mem.get(loc) if is_ref(dd['t']) else loc
            if cp.get('ref'):
                caps.append((dd['n'], src if src is not None else loc))
            else:
                dst = Loc(('lam', fr.id, n['id'], dd['n']), ())
                if isinstance(src, Loc): self.copy_tree(st, src, dst) if self.subtree(st, src) else None
                caps.append((dd['n'], dst))
        self.put(st, fr, n, Lam(FnBox(n['fn']) if 'fn' in n else None, tuple(caps)))
    def x_CXXNewExpr(self, st, fr, n):
        loc = Loc(('heap', fr.id, n['id']), ())
        self.kill_tree(st, loc)
        c = n.get('c') or []
        for x in c:
            N = fr.pre.nodes[x]
            if N['k'] in ('CXXConstructExpr', 'InitListExpr', 'CXXTemporaryObjectExpr') or is_class(N.get('t', 'int')):
                v = self.val(st, fr, x)
                if isinstance(v, Loc):
                    self.copy_tree(st, v, loc)
                    self.drop_temp(st, v, fr)
                else:
                    st.mem[loc] = v
        self.put(st, fr, n, loc)
    def x_CXXDeleteExpr(self, st, fr, n): self.put(st, fr, n, ZERO)
    def x_CXXThrowExpr(self, st, fr, n): return []
    # ---- calls
    def do_call(self, st, fr, n, fn, this, args):
        out = []
        for s, v in self.call(st, fr, fn, this, args, n):
            self.put(s, fr, n, v)
            out.append(s)
        return out
    def args(self, st, fr, ids):
        return [self.val(st, fr, a) for a in ids]
    def x_CXXMemberCallExpr(self, st, fr, n):
        b = self.val(st, fr, n['c'][0])
        args = self.args(st, fr, n['c'][1:])
        this = b.this if isinstance(b, Bound) else None
        fn = n.get('fn') or (b.fn.f if isinstance(b, Bound) else None)
        if fn is None:
            self.put(st, fr, n, self.unknown(n.get('t', 'int'), 'mcall'))
            return
        h = self.hooks.get('deref')
        if h and isinstance(b, Bound) and fr.pre.nodes[n['c'][0]].get('arrow'):
            h(self, st, fr, n, b.this)
        return self.do_call(st, fr, n, fn, this, args)
    def x_CXXOperatorCallExpr(self, st, fr, n):
        fn = n.get('fn')
        args = self.args(st, fr, n['c'][1:])
        if args:
            lam = st.mem.get(args[0]) if isinstance(args[0], Loc) else args[0]
            if isinstance(lam, Lam) and (fn is None or fn['n'] == 'operator()'):
                r = self.lam_call(st, fr, lam, args[1:], n)
                if r is not None:
                    for s, v in r: self.put(s, fr, n, v)
                    return [s for s, v in r]
        if fn is None:
            self.put(st, fr, n, self.unknown(n.get('t', 'int'), 'opcall'))
            return
        if fn.get('cls') and not fn.get('static') and self.is_member(fn, n):
            return self.do_call(st, fr, n, fn, args[0], args[1:])
        return self.do_call(st, fr, n, fn, None, args)
    def is_member(self, fn, n):
        return len(n['c']) - 1 == len(fn.get('p', [])) + 1
    def x_CallExpr(self, st, fr, n):
        fn = n.get('fn')
        args = self.args(st, fr, n['c'][1:])
        if fn is None:
            cal = self.val(st, fr, n['c'][0])
            if isinstance(cal, FnRef):
                fn = cal.fn.f
            else:
                h = self.hooks.get('icall')
                if h:
                    r = h(self, st, fr, n, cal, args)
                    if r is not None:
                        return r
                self.put(st, fr, n, self.unknown(n.get('t', 'int'), 'icall'))
                return
        return self.do_call(st, fr, n, fn, None, args)
    def x_CXXConstructExpr(self, st, fr, n):
        fn = n.get('fn')
        c = n.get('c') or []
        if n.get('elide') and c:
            self.put(st, fr, n, self.val(st, fr, c[0]))
            return
        dst = Loc((fr.id, 't', n['id']), ())
        args = self.args(st, fr, c)
        if dst in args:
            pass
        self.kill_tree(st, dst) if dst not in args else None
        if fn is None:
            self.put(st, fr, n, dst)
            return
        return self.do_call(st, fr, n, fn, dst, args)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
