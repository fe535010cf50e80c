"""Concurrency model for the task queue, the thread pool and parallel evaluation: locks, condition variables, atomics, threads,
futures and exceptions as ghost state of the abstract interpreter.

A shared object's state is unknown whenever its lock is taken (another thread may have changed it), so interpreting one method
alone covers its execution among any other calls."""
import itertools
from exprmodel import *

PAR = NS + 'parallel::'
LOCKS = ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock')
CONT = ('queue', 'deque', 'list', 'vector', 'priority_queue')

class ConcEngine(ExprEngine):
    ROUNDS = 60
    sizes = range(4)         # numbers of queued elements another thread may leave
    def __init__(self, F, **kw):
        super().__init__(F, 'bi', **kw)
        self.shared = {}         # base of a shared object -> record
        self.private = set()     # bases of objects under construction
        self.accesses = {}       # (field, function, line) -> (locks, write, frame, node)
        self.waitcv = set()
        self.shut = {}           # field -> value that tells waiting threads to leave
        self.init = {}
        self.sleeps = []
        self.table = dict(self.table)
        for c in ('queue', 'deque', 'stack', 'list'):
            for n, h in (('push', vec_push), ('push_back', vec_push), ('emplace', loc_emplace), ('emplace_back', loc_emplace), ('size', wordmodel.TAB['std::vector::size']), ('empty', wordmodel.TAB['std::vector::empty']),
                         ('front', loc_front), ('back', loc_back), ('top', loc_back if c == 'stack' else loc_front), ('pop', loc_pop_back if c == 'stack' else loc_pop), ('pop_front', loc_pop), ('pop_back', loc_pop_back)):
                self.table.setdefault('std::%s::%s' % (c, n), h)
        for k, h in CTAB.items():
            self.table[k] = chain(h, self.table.get(k))
        self.hooks['dtor'] = dtor_hook
        self.hooks['write'] = write_hook
    # exact exploration: states of a loop are followed until no new one appears
    def run_loop(self, head, body, inb, fr):
        if not self.exact_loops: return super().run_loop(head, body, inb, fr)
        cur = inb.pop(head)
        seen = set()
        for _ in range(self.ROUNDS):
            new = []
            for s in cur:
                self.clear_env(s, fr)
                k = self.sig(s)
                if k not in seen: seen.add(k); new.append(s)
            if not new: return
            loc = defaultdict(list)
            for s in new:
                for succ, s2 in self.block(s, fr, fr.pre.blocks[head]): loc[succ].append(s2)
            self.run_seq(body, loc, fr)
            cur = loc.pop(head, [])
            for k, v in loc.items(): inb[k].extend(v)
        raise Budget('loop states')
    exact_loops = False
    def rec(self, loc):
        """(object location, field) if loc lies in a shared object"""
        if not isinstance(loc, Loc) or loc.base not in self.shared or not loc.path: return None
        return Loc(loc.base, ()), loc.path[0]
    def access(self, st, loc, fr, node, write):
        r = self.rec(loc)
        if r is None: return
        o, f = r
        if self.shared[o.base].get(f) in ('mutex', 'cond', None): return
        locks = frozenset(m.path[0] for m in held(st) if m.base == o.base)
        k = (f, fr.fn['q'] if fr else '', node.get('l') if isinstance(node, dict) else '', locks, write)
        self.accesses[k] = (f, locks, write, fr, node)
    def read(self, st, loc, t, fr=None, node=None):
        if fr is not None and isinstance(loc, Loc):
            self.access(st, loc, fr, node, False)
            if loc.base and loc.base[0] == 'qe': elem_use(self, st, loc, fr, node)
        return super().read(st, loc, t, fr, node)

def loc_emplace(eng, st, fr, fn, this, args, node):
    vec_push(eng, st, fr, fn, this, args, node)
    return [(st, elem(this, get_elems(eng, st, this) - 1))]
def loc_end(first):
    def h(eng, st, fr, fn, this, args, node):
        n = get_elems(eng, st, this)
        if n == 0: eng.alarm('empty-queue', fr, node, 'an element of an empty queue is used'); return []
        return [(st, elem(this, 0 if first else n - 1))]
    return h
loc_front, loc_back = loc_end(True), loc_end(False)
def loc_pop(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    if n == 0: eng.alarm('empty-queue', fr, node, 'an element is removed from an empty queue'); return []
    for i in range(n - 1):
        d, s = elem(this, i), elem(this, i + 1)
        eng.kill_tree(st, d); eng.copy_tree(st, s, d)
    eng.kill_tree(st, elem(this, n - 1)); set_size(st, this, n - 1)
    return [(st, ZERO)]
def loc_pop_back(eng, st, fr, fn, this, args, node):
    n = get_elems(eng, st, this)
    if n == 0: eng.alarm('empty-queue', fr, node, 'an element is removed from an empty queue'); return []
    eng.kill_tree(st, elem(this, n - 1)); set_size(st, this, n - 1)
    return [(st, ZERO)]

def chain(h, old):
    def g(eng, st, fr, fn, this, args, node):
        r = h(eng, st, fr, fn, this, args, node)
        if r is NotImplemented and old is not None: return old(eng, st, fr, fn, this, args, node)
        return r
    return g

CTAB = {}
def K(*names):
    def d(f):
        def h(eng, st, fr, fn, this, args, node):
            r = f(eng, st, fr, fn, this, args, node)
            if isinstance(r, list) or r is NotImplemented: return r
            return [(st, r)]
        for n in names: CTAB[n] = h
        return h
    return d

def held(st): return st.ghost.get('held', frozenset())

def write_hook(eng, st, loc, v, fr, node):
    r = eng.rec(loc)
    if r is None: return
    eng.access(st, loc, fr, node, True)
    flag_write(eng, st, r[1], v, fr, node)

def flag_write(eng, st, f, v, fr, node):
    v = v.const() if isinstance(v, Poly) else v
    if v is None or isinstance(v, (Cond,)): return
    if f in eng.shut:
        if v == eng.shut[f]:
            st.ghost['needall'] = frozenset(st.ghost.get('needall', frozenset()) | {f}) if 'all' not in noted(st) else st.ghost.get('needall', frozenset())
        elif not eng.private:
            eng.alarm('shutdown-withdrawn', fr, node, 'the shutdown indication that waiting workers test is withdrawn: a worker that tests it later waits forever')
    st.ghost['wrote'] = st.ghost.get('wrote', frozenset()) | {(f, v)}

def noted(st): return st.ghost.get('noted', ())

# ---------------------------------------------------------------- locks
def acquire(eng, st, m, fr, node):
    """-> states in which m is held; what it guards is what other threads left"""
    h = held(st)
    if m in h:
        eng.alarm('self-deadlock', fr, node, 'the mutex is locked while this thread already holds it')
        return []
    st.ghost['held'] = h | {m}
    return havoc(eng, st, m)
def release(eng, st, m, fr, node):
    st.ghost['held'] = held(st) - {m}
    st.ghost.pop('noted', None)

def havoc(eng, st, m):
    if m.base not in eng.shared: return [st]
    kinds = eng.shared[m.base]
    took = sum(1 for _ in st.ghost.get('took', ()))
    alts = []
    for f, k in kinds.items():
        if k == 'cont':
            alts.append([(f, Opq('seq', tuple(Opq('elem', (10000 * took + i,)) for i in range(n)))) for n in eng.sizes])
        elif k == 'flag':
            alts.append([(f, C(v)) for v in (0, 1)])
        elif k == 'scalar':
            alts.append([(f, C(v)) for v in sorted({eng.init.get(f, 0), eng.shut.get(f, 1), 0, 1, 2})])
    fix = eng.hooks.get('fixed') or {}
    out = []
    for combo in itertools.product(*alts):
        if any(f in fix and v != fix[f] for f, v in combo): continue
        s = st.copy()
        for k in [k for k in s.mem if k.base == m.base or k.base[0] == 'qe']: del s.mem[k]
        for f, v in combo: s.mem[Loc(m.base, (f,))] = v
        out.append(s)
    return out

def lockval(st, l):
    v = st.mem.get(l) if isinstance(l, Loc) else None
    while isinstance(v, Loc): v = st.mem.get(v)
    return v if isinstance(v, Opq) and v.tag == 'lk' else None

def lk_ctor(eng, st, fr, fn, this, args, node):
    ms = [a for a, p in zip(args, fn['p']) if 'mutex' in p and 'unique_lock' not in p]
    tag = [p for p in fn['p'] if 'adopt_lock' in p or 'defer_lock' in p or 'try_to_lock' in p]
    if len(args) == 1 and not ms and 'lock' in fn['p'][0]:      # move construction
        v = lockval(st, args[0])
        st.mem[this] = v or Opq('lk', ((), 0)); st.mem[args[0]] = Opq('lk', ((), 0))
        return [(st, this)]
    ms = tuple(m for m in ms if isinstance(m, Loc))
    if len(ms) != len([p for p in fn['p'] if 'mutex' in p and 'unique_lock' not in p]): raise Budget('mutex not recognised')
    own = 1
    if tag and 'defer' in tag[0]: own = 0
    sts = [st]
    if tag and 'try' in tag[0]:
        s2 = st.copy(); s2.mem[this] = Opq('lk', (ms, 0))
        out = [(s2, this)]
    else: out = []
    if own and not (tag and 'adopt' in tag[0]):
        for m in ms: sts = [s2 for s in sts for s2 in acquire(eng, s, m, fr, node)]
    for s in sts: s.mem[this] = Opq('lk', (ms, own)); out.append((s, this))
    return out
for _c in LOCKS:
    CTAB['std::%s::%s' % (_c, _c)] = lk_ctor
def lk_drop(eng, st, loc, fr, node):
    v = lockval(st, loc)
    if v is not None and v.args[1]:
        for m in v.args[0]: release(eng, st, m, fr, node)
        return True
def dtor_hook(eng, st, fr, e, loc):
    v = st.mem.get(loc)
    if isinstance(v, Opq) and v.tag == 'lk':
        lk_drop(eng, st, loc, fr, e)
        eng.kill_tree(st, loc)
        return [st]
    return None
def lk_dtor(eng, st, fr, fn, this, args, node):
    lk_drop(eng, st, this, fr, node); return [(st, ZERO)]
for _c in LOCKS: CTAB['std::%s::~%s' % (_c, _c)] = lk_dtor
@K('std::unique_lock::lock', 'std::mutex::lock', 'std::shared_lock::lock', 'std::recursive_mutex::lock')
def m_lock(eng, st, fr, fn, this, args, node):
    v = lockval(st, this)
    ms = v.args[0] if v else (this,)
    if v and v.args[1]: eng.alarm('self-deadlock', fr, node, 'lock() on a lock that is already owned'); return []
    sts = [st]
    for m in ms: sts = [s2 for s in sts for s2 in acquire(eng, s, m, fr, node)]
    if v:
        for s in sts: s.mem[this] = Opq('lk', (ms, 1))
    return [(s, ZERO) for s in sts]
@K('std::unique_lock::unlock', 'std::mutex::unlock', 'std::shared_lock::unlock', 'std::recursive_mutex::unlock')
def m_unlock(eng, st, fr, fn, this, args, node):
    v = lockval(st, this)
    ms = v.args[0] if v else (this,)
    for m in ms:
        if m not in held(st) or (v and not v.args[1]): eng.alarm('unlock-unowned', fr, node, 'a mutex is unlocked that is not held'); return []
        release(eng, st, m, fr, node)
    if v: st.mem[this] = Opq('lk', (ms, 0))
    return ZERO
@K('std::unique_lock::owns_lock', 'std::unique_lock::operator bool')
def m_owns(eng, st, fr, fn, this, args, node):
    v = lockval(st, this)
    return C(1 if v and v.args[1] else 0) if v else NotImplemented
@K('std::unique_lock::release')
def m_rel(eng, st, fr, fn, this, args, node):
    st.mem[this] = Opq('lk', ((), 0)); return ZERO

# ---------------------------------------------------------------- condition variables
def seq_state(eng, st, o):
    """(elements, shut down) of a shared object in a state"""
    n, shut = 0, False
    for f, k in eng.shared[o.base].items():
        v = st.mem.get(Loc(o.base, (f,)))
        if k == 'cont' and isinstance(v, Opq) and v.tag == 'seq': n += len(v.args)
        if f in eng.shut and isinstance(v, Poly) and v.const() == eng.shut[f]: shut = True
    return n, shut

def sleep(eng, st, m, fr, node):
    o = Loc(m.base, ())
    n, shut = seq_state(eng, st, o)
    eng.obl['sleep'] += 1
    if n: eng.alarm('lost-wakeup', fr, node, 'the thread goes to sleep although %d task(s) are queued: their notification may already have been given' % n)
    if shut: eng.alarm('lost-wakeup', fr, node, 'the thread goes to sleep although shutdown was announced: nobody wakes it again')
    st.ghost['slept'] = 1

@K('std::condition_variable::wait', 'std::condition_variable_any::wait', 'std::condition_variable::wait_for', 'std::condition_variable::wait_until')
def cv_wait(eng, st, fr, fn, this, args, node):
    v = lockval(st, args[0])
    timed = fn['n'] != 'wait'
    eng.waitcv.add(this.path[0] if isinstance(this, Loc) and this.path else None)
    if v is None or not v.args[1] or not v.args[0]:
        eng.alarm('wait-unlocked', fr, node, 'waits on the condition variable without holding the lock'); return []
    m = v.args[0][0]
    pred = args[1 + timed] if len(args) > 1 + timed else None
    st.ghost['waits'] = 1
    if isinstance(this, Loc) and m.base != this.base: eng.alarm('wait-unlocked', fr, node, 'waits with the lock of another object'); return []
    if pred is None:
        sleep(eng, st, m, fr, node)
        st.ghost['held'] = held(st) - {m}; st.ghost.pop('noted', None)
        out = []
        for s in acquire(eng, st, m, fr, node): out.append((s, fresh('timeout', 0, 1) if timed else ZERO))
        return out
    def test(s):
        p = s.mem.get(pred) if isinstance(pred, Loc) else pred
        if isinstance(p, Lam): r = eng.lam_call(s, fr, p, [], node)
        elif isinstance(p, FnRef): r = eng.call(s, fr, eng.F.fns.get(p.fn.f['id'], p.fn.f), None, [], node)
        else: raise Budget('predicate')
        if r is None: raise Budget('predicate')
        return [(s3, t) for s2, b in r for s3, t in eng.split(s2, b)]
    out = []
    asleep = []
    for s, t in test(st):
        if t: out.append((s, C(1)))
        else:
            sleep(eng, s, m, fr, node); asleep.append(s)
    if asleep:
        s = asleep[0]
        s.ghost['held'] = held(s) - {m}; s.ghost.pop('noted', None)
        for s2 in acquire(eng, s, m, fr, node):
            for s3, t in test(s2):
                if t: out.append((s3, C(1)))
                elif timed: out.append((s3, ZERO))
    return out
@K('std::condition_variable::notify_one', 'std::condition_variable::notify_all', 'std::condition_variable_any::notify_one', 'std::condition_variable_any::notify_all')
def cv_note(eng, st, fr, fn, this, args, node):
    f = this.path[0] if isinstance(this, Loc) and this.path else None
    if eng.waitcv and f not in eng.waitcv: return ZERO
    if isinstance(this, Loc):
        al = fn['n'] == 'notify_all'
        g = st.ghost
        if al: g.pop('needall', None); g.pop('needone', None)
        else: g.pop('needone', None)
        if al: g['notedall'] = 1
        # given inside a critical section: whatever changes before it ends is covered too
        if any(m.base == this.base for m in held(st)): g['noted'] = tuple(sorted(set(noted(st)) | {'one'} | ({'all'} if al else set())))
    return ZERO

# ---------------------------------------------------------------- containers of a shared object
def seq(st, this):
    v = st.mem.get(this) if isinstance(this, Loc) else None
    return v.args if isinstance(v, Opq) and v.tag == 'seq' else None
def elem_use(eng, st, loc, fr, node):
    c = loc.base[1]
    s = seq(st, c)
    eng.access(st, c, fr, node, True)
    if s is None or loc.base[2] not in s:
        eng.alarm('dangling-element', fr, node, 'an element is used after it was removed from the queue')
def q_ops(name, mod):
    def d(f):
        def h(eng, st, fr, fn, this, args, node):
            s = seq(st, this)
            if s is None: return NotImplemented
            eng.access(st, this, fr, node, mod)
            r = f(eng, st, fr, fn, this, args, node, s)
            return r if isinstance(r, list) else [(st, r)]
        for c in CONT:
            for n in name.split(): CTAB['std::%s::%s' % (c, n)] = h
        return h
    return d
@q_ops('empty', False)
def q_empty(eng, st, fr, fn, this, args, node, s): return C(int(not s))
@q_ops('size', False)
def q_size(eng, st, fr, fn, this, args, node, s): return C(len(s))
def q_ref(st, this, e):
    L = Loc(('qe', this, e), ())
    if L not in st.mem: st.mem[L] = e
    return L
def q_peek(i):
    def f(eng, st, fr, fn, this, args, node, s):
        if not s: eng.alarm('empty-queue', fr, node, 'the first element of a queue is used although the queue may be empty'); return []
        return q_ref(st, this, s[i])
    return f
q_ops('front top', False)(q_peek(0))
q_ops('back', False)(q_peek(-1))
def q_take(i):
    def f(eng, st, fr, fn, this, args, node, s):
        if not s: eng.alarm('empty-queue', fr, node, 'an element is removed from a queue that may be empty'); return []
        e = s[i]
        st.ghost['took'] = st.ghost.get('took', ()) + (e,)
        st.mem[this] = Opq('seq', tuple(x for x in s if x is not e))
        L = Loc(('qe', this, e), ())
        eng.kill_tree(st, L)
        return ZERO
    return f
q_ops('pop_front', True)(q_take(0))
q_ops('pop_back', True)(q_take(-1))
q_ops('pop', True)(q_take(0))
def payload(eng, st, a):
    """value of a task object"""
    n = 0
    while isinstance(a, Loc) and n < 8:
        if a.base and a.base[0] == 'qe': return a.base[2]
        v = st.mem.get(a)
        if v is None: return None
        a = v; n += 1
    return a
def q_put(front):
    def f(eng, st, fr, fn, this, args, node, s):
        if len(args) != 1: raise Budget('element construction')
        v = payload(eng, st, args[0])
        if v is None: raise Budget('element value')
        if isinstance(v, (Lam, FnRef)): v = Opq('callable', (v,))
        if not isinstance(v, Opq): v = Opq('val', (v,))
        st.mem[this] = Opq('seq', (v,) + s if front else s + (v,))
        st.ghost['put'] = st.ghost.get('put', ()) + (v,)
        if 'one' not in noted(st) : st.ghost['needone'] = 1
        return q_ref(st, this, v) if fn['n'].startswith('emplace') else ZERO
    return f
q_ops('push push_back emplace emplace_back', True)(q_put(False))
q_ops('push_front emplace_front', True)(q_put(True))
@q_ops('clear', True)
def q_clear(eng, st, fr, fn, this, args, node, s):
    st.ghost['took'] = st.ghost.get('took', ()) + s
    st.mem[this] = Opq('seq', ())
    return ZERO
@q_ops('swap', True)
def q_swap(eng, st, fr, fn, this, args, node, s):
    o = seq(st, args[0])
    if o is None: raise Budget('swap')
    eng.access(st, args[0], fr, node, True)
    st.mem[this], st.mem[args[0]] = Opq('seq', o), Opq('seq', s)
    return ZERO
def q_asg(eng, st, fr, fn, this, args, node):
    o = seq(st, args[0]) if args else None
    if o is None: return NotImplemented
    eng.access(st, args[0], fr, node, '&&' in fn['p'][0])
    if not fn.get('ctor'): eng.access(st, this, fr, node, True)
    st.mem[this] = Opq('seq', o)
    if '&&' in fn['p'][0] and this.base != args[0].base: st.mem[args[0]] = Opq('seq', ())
    return [(st, this)]
for _c in CONT:
    CTAB['std::%s::operator=' % _c] = q_asg
    CTAB['std::%s::%s' % (_c, _c)] = q_asg

# ---------------------------------------------------------------- atomics
def at(st, this):
    return st.mem.get(this) if isinstance(this, Loc) else None
def is_at(fn): return 'atomic' in (fn.get('cls') or fn['q'])
def at_read(eng, st, fr, fn, this, args, node):
    if not isinstance(this, Loc): return NotImplemented
    h = eng.hooks.get('atomic_read')
    if h:
        r = h(eng, st, fr, this, node)
        if r is not None: return r
    v = eng.read(st, this, 'bool' if 'bool' in (fn.get('cls') or fn['q'] + fn.get('r', '')) else fn.get('r', 'int'), fr, node)
    return [(st, v)]
def at_write(eng, st, fr, fn, this, args, node):
    if not isinstance(this, Loc): return NotImplemented
    v = args[0]
    if isinstance(v, Loc): v = eng.read(st, v, 'int', fr, node)
    h = eng.hooks.get('atomic_write')
    if h: h(eng, st, fr, this, v, node)
    eng.write(st, this, v, fr, node)
    return [(st, this if fn['n'].startswith('atomic') else v if fn['n'] == 'operator=' else ZERO)]
def at_exchange(eng, st, fr, fn, this, args, node):
    out = []
    for s, v in at_read(eng, st, fr, fn, this, [], node):
        for s2, _ in at_write(eng, s, fr, dict(fn, n='store'), this, args, node): out.append((s2, v))
    return out
def at_init(eng, st, fr, fn, this, args, node):
    if isinstance(this, Loc): st.mem[this] = args[0] if args else ZERO
    return [(st, this)]
for _c in ('atomic', '__atomic_base', 'atomic_flag'):
    for _n in ('load', 'operator bool', 'operator __integral_type', 'operator _Tp', 'operator int', 'operator unsigned int', 'test'): CTAB['std::%s::%s' % (_c, _n)] = at_read
    for _n in ('store', 'operator='): CTAB['std::%s::%s' % (_c, _n)] = at_write
    CTAB['std::%s::exchange' % _c] = at_exchange
    CTAB['std::%s::%s' % (_c, _c)] = at_init

# ---------------------------------------------------------------- callables as values
def fn_copy(eng, st, fr, fn, this, args, node):
    """construction and assignment of std::function"""
    a = args[0] if args else ZERO
    v = payload(eng, st, a)
    if isinstance(a, Loc) and a.base and a.base[0] == 'qe': elem_use(eng, st, a, fr, node)
    if v is None:
        v = st.mem.get(a) if isinstance(a, Loc) else a
        if v is None: return NotImplemented
    if isinstance(a, Loc) and isinstance(v, Poly) and fn['p'] and 'nullptr' in fn['p'][0]: v = ZERO
    if isinstance(this, Loc) and this.base and this.base[0] == 'qe': elem_use(eng, st, this, fr, node)
    st.mem[this] = v
    if fn['p'] and fn['p'][0].endswith('&&') and isinstance(a, Loc) and a != this and fn['p'][0].startswith('std::function'):
        st.mem[a] = Opq('moved', ())
    return [(st, this)]
CTAB['std::function::function'] = fn_copy
CTAB['std::function::operator='] = fn_copy
@K('std::function::operator bool')
def fn_bool(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, this)
    if isinstance(v, Poly): return C(int(v != ZERO))
    if isinstance(v, (Opq, Lam, FnRef)): return C(int(not (isinstance(v, Opq) and v.tag == 'moved')))
    return NotImplemented
@K('std::function::swap')
def fn_swap(eng, st, fr, fn, this, args, node):
    a, b = payload(eng, st, this), payload(eng, st, args[0])
    if a is None or b is None: return NotImplemented
    for l in (this, args[0]):
        if l.base and l.base[0] == 'qe': elem_use(eng, st, l, fr, node)
    st.mem[this], st.mem[args[0]] = b, a
    return ZERO
CTAB['std::swap'] = lambda eng, st, fr, fn, this, args, node: fn_swap(eng, st, fr, fn, args[0], args[1:], node) if any(isinstance(payload(eng, st, a), Opq) and payload(eng, st, a).tag in ('elem', 'task', 'callable', 'val') for a in args) else NotImplemented

# ---------------------------------------------------------------- threads
NOTHR = Opq('thr', (0,))
def is_thr(fn): return wordmodel.elt(fn) in ('std::thread', 'std::jthread')
def thr_resize(eng, st, fr, fn, this, args, node):
    if not is_thr(fn): return NotImplemented
    v = args[0] if args else ZERO
    if isinstance(v, Loc): v = eng.read(st, v, 'unsigned long', fr, node)
    if not isinstance(v, Poly): return NotImplemented
    c = v.const()
    if c is None:
        h = eng.hooks.get('workers')
        if h: h(eng, st, fr, node, v); return []
        raise Budget('symbolic number of threads')
    n = get_elems(eng, st, this)
    for i in range(n, min(c, 64)): st.mem[elem(this, i)] = NOTHR
    for i in range(c, n):
        thr_end(eng, st, elem(this, i), fr, node); eng.kill_tree(st, elem(this, i))
    if c > 64: raise Budget('number of threads')
    set_size(st, this, c)
    return [(st, ZERO)]
CTAB['std::vector::resize'] = thr_resize
def thr_vec(eng, st, fr, fn, this, args, node):
    if not is_thr(fn) or not fn['p'] or 'unsigned long' not in fn['p'][0]: return NotImplemented
    set_size(st, this, 0)
    r = thr_resize(eng, st, fr, fn, this, args, node)
    return [(s, this) for s, _ in r]
CTAB['std::vector::vector'] = thr_vec
def thr_clear(eng, st, fr, fn, this, args, node):
    if not is_thr(fn): return NotImplemented
    for i in range(get_elems(eng, st, this)):
        thr_end(eng, st, elem(this, i), fr, node); eng.kill_tree(st, elem(this, i))
    set_size(st, this, 0)
    return [(st, ZERO)]
CTAB['std::vector::clear'] = thr_clear
def thr_end(eng, st, loc, fr, node):
    v = st.mem.get(loc)
    if isinstance(v, Opq) and v.tag == 'thr' and v.args[0]:
        eng.alarm('unjoined', fr, node, 'a thread object is destroyed or overwritten while its thread was never joined')
def thr_make(eng, st, fr, args, node):
    k = st.ghost.get('nthr', 0) + 1
    st.ghost['nthr'] = k
    h = eng.hooks.get('thread')
    if h: h(eng, st, fr, k, args, node)
    return Opq('thr', (k,))
@K('std::thread::thread')
def thr_ctor(eng, st, fr, fn, this, args, node):
    if not args: st.mem[this] = NOTHR; return this
    if fn['p'][0].startswith('std::thread'):
        st.mem[this] = st.mem.get(args[0], NOTHR); st.mem[args[0]] = NOTHR; return this
    st.mem[this] = thr_make(eng, st, fr, args, node)
    return this
@K('std::thread::operator=')
def thr_asg(eng, st, fr, fn, this, args, node):
    thr_end(eng, st, this, fr, node)
    v = st.mem.get(args[0], NOTHR)
    st.mem[args[0]] = NOTHR
    st.mem[this] = v
    return this
@K('std::thread::swap')
def thr_swap(eng, st, fr, fn, this, args, node):
    a, b = st.mem.get(this, NOTHR), st.mem.get(args[0], NOTHR)
    st.mem[this], st.mem[args[0]] = b, a
    return ZERO
def thr_emplace(eng, st, fr, fn, this, args, node):
    if not is_thr(fn): return NotImplemented
    n = get_elems(eng, st, this)
    set_size(st, this, n + 1)
    v = st.mem.get(args[0]) if args and isinstance(args[0], Loc) else None
    if isinstance(v, Opq) and v.tag == 'thr':
        st.mem[args[0]] = NOTHR
    else: v = thr_make(eng, st, fr, args, node) if args else NOTHR
    st.mem[elem(this, n)] = v
    return [(st, elem(this, n) if fn['n'] == 'emplace_back' else ZERO)]
CTAB['std::vector::emplace_back'] = thr_emplace
CTAB['std::vector::push_back'] = thr_emplace
CTAB['std::vector::reserve'] = lambda eng, st, fr, fn, this, args, node: [(st, ZERO)] if is_thr(fn) else NotImplemented
@K('std::thread::joinable')
def thr_joinable(eng, st, fr, fn, this, args, node):
    v = st.mem.get(this)
    return C(int(bool(v.args[0]))) if isinstance(v, Opq) and v.tag == 'thr' else NotImplemented
@K('std::thread::join')
def thr_join(eng, st, fr, fn, this, args, node):
    v = st.mem.get(this)
    if not (isinstance(v, Opq) and v.tag == 'thr'): raise Budget('join of an unknown thread')
    if not v.args[0]: eng.alarm('join-nothing', fr, node, 'joins a thread object that stands for no running thread: this throws in the destructor'); return []
    h = eng.hooks.get('join')
    if h: h(eng, st, fr, v.args[0], node)
    st.ghost['joined'] = st.ghost.get('joined', ()) + (v.args[0],)
    st.mem[this] = NOTHR
    return ZERO
@K('std::thread::detach')
def thr_detach(eng, st, fr, fn, this, args, node):
    eng.alarm('detached', fr, node, 'a worker is detached: it can outlive the pool it uses')
    st.mem[this] = NOTHR
    return ZERO
CTAB['std::thread::hardware_concurrency'] = lambda eng, st, fr, fn, this, args, node: [(st, fresh('hw', 0, 2**20))]

# ---------------------------------------------------------------- tasks, promises and futures
def value_of(eng, st, a):
    v = payload(eng, st, a)
    return v
@K('std::bind')
def bind(eng, st, fr, fn, this, args, node):
    vs = []
    for a in args:
        v = payload(eng, st, a)
        vs.append(v if v is not None else a)
    loc = tmp(fr, node)
    eng.kill_tree(st, loc)
    st.mem[loc] = Opq('bound', tuple(vs))
    return loc
def fresh_id(st, k):
    n = st.ghost.get(('ids', k), 0) + 1
    st.ghost[('ids', k)] = n
    return n
@K('std::packaged_task::packaged_task')
def pt_ctor(eng, st, fr, fn, this, args, node):
    if not args: st.mem[this] = ZERO; return this
    v = payload(eng, st, args[0])
    if isinstance(v, Opq) and v.tag == 'ptask':
        st.mem[this] = v
        if isinstance(args[0], Loc): st.mem[args[0]] = ZERO
        return this
    if v is None: raise Budget('packaged task')
    st.mem[this] = Opq('ptask', (fresh_id(st, 'pt'), v))
    return this
CTAB['std::packaged_task::operator='] = pt_ctor
def pt_make(eng, st, fr, fn, this, args, node):
    r = fn.get('r', '')
    if 'packaged_task<' in r:
        obj = Loc(('heap', fr.id, node['id'], 'pt'), ())
        pt_ctor(eng, st, fr, fn, obj, args, node)
    elif re.search(r'promise<', r):
        obj = Loc(('heap', fr.id, node['id'], 'pr'), ())
        st.mem[obj] = Opq('prom', (fresh_id(st, 'pr'),))
    else: return NotImplemented
    loc = tmp(fr, node)
    st.mem[loc] = obj
    return [(st, loc)]
CTAB['std::make_shared'] = pt_make
CTAB['std::make_unique'] = pt_make
def sp_copy(eng, st, fr, fn, this, args, node):
    if len(args) != 1 or not isinstance(args[0], Loc): return NotImplemented
    v = st.mem.get(args[0])
    if not (isinstance(v, Loc) and isinstance(st.mem.get(v), Opq) and st.mem[v].tag in ('ptask', 'prom')): return NotImplemented
    st.mem[this] = v
    return [(st, this)]
CTAB['std::shared_ptr::shared_ptr'] = sp_copy
@K('std::packaged_task::get_future')
def pt_future(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, this)
    if not (isinstance(v, Opq) and v.tag == 'ptask'): raise Budget('packaged task not tracked')
    if v.args[0] in st.ghost.get('ptfut', ()): eng.alarm('future-twice', fr, node, 'the future of a task is fetched twice'); return []
    st.ghost['ptfut'] = st.ghost.get('ptfut', ()) + (v.args[0],)
    loc = tmp(fr, node)
    st.mem[loc] = Opq('fut', ('pt', v.args[0]))
    return loc
@K('std::packaged_task::operator()')
def pt_run(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, this)
    if not (isinstance(v, Opq) and v.tag == 'ptask'): raise Budget('packaged task not tracked')
    if v.args[0] in st.ghost.get('ptran', ()): eng.alarm('task-twice', fr, node, 'a task is executed twice'); return []
    st.ghost['ptran'] = st.ghost.get('ptran', ()) + (v.args[0],)
    h = eng.hooks.get('task_run')
    if h: return h(eng, st, fr, v, node)
    return ZERO
@K('std::packaged_task::valid')
def pt_valid(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, this)
    return C(int(isinstance(v, Opq) and v.tag == 'ptask')) if v is not None else NotImplemented
def fut_copy(eng, st, fr, fn, this, args, node):
    if not args: st.mem[this] = Opq('fut', (None, None)); return [(st, this)]
    v = st.mem.get(args[0])
    if not isinstance(v, Opq): return NotImplemented
    st.mem[this] = v
    if this != args[0]: st.mem[args[0]] = Opq('fut', (None, None))
    return [(st, this)]
CTAB['std::future::future'] = fut_copy
CTAB['std::future::operator='] = fut_copy

# ---------------------------------------------------------------- exceptions
class ThrowEngine(ConcEngine):
    """adds exceptions: a state that carries '#throw' leaves its block for the innermost handler, or the function"""
    def block(self, st, fr, b):
        out = []
        sts = [st]
        N = fr.pre.nodes
        # elements one by one, so that a throwing state never reaches the next one
        for i, e in enumerate(b['e']):
            nxt = []
            for s in sts:
                self.steps += 1
                if self.steps > self.max_steps: raise Budget('steps')
                if self.deadline and self.steps & 31 == 0 and time.process_time() > self.deadline: raise Budget('time bound')
                try:
                    r = self.ev(s, fr, e) if isinstance(e, int) else self.special(s, fr, e)
                    for s2 in (r if r is not None else [s]):
                        if '#throw' in s2.ghost: self.thrown_at(s2, fr, e)
                        else: nxt.append(s2)
                except Infeasible: pass
            sts = nxt
            if not sts: return []
        rest = dict(b, e=[])
        for s in sts: out.extend(super().block(s, fr, rest))
        return out
    def thrown_at(self, s, fr, e):
        if getattr(fr, 'thrown', None) is None: fr.thrown = []
        fr.thrown.append((s, e if isinstance(e, int) else None))
    def handler(self, fr, e):
        """block that dispatches to the handlers around node e"""
        pre = fr.pre
        if not hasattr(pre, 'tries'):
            pre.tries = []
            for n in pre.nodes:
                if n and n['k'] == 'CXXTryStmt':
                    inside, todo = set(), [n['c'][0]]
                    while todo:
                        x = todo.pop()
                        if x in inside or x is None: continue
                        inside.add(x)
                        m = pre.nodes[x]
                        todo += [y for y in m.get('c') or [] if y is not None]
                        for d in m.get('ds') or []:
                            if d.get('init') is not None: todo.append(d['init'])
                    disp = [b['id'] for b in pre.blocks.values() if b.get('t') and b['t'].get('k') == 'CXXTryStmt' and b['t'].get('s') == n['id']]
                    if disp: pre.tries.append((len(inside), inside, disp[0]))
            pre.tries.sort(key=lambda t: t[0])
        for _, inside, d in pre.tries:
            if e in inside: return d
        return None
    def run(self, st, fr):
        fr.thrown = []
        exits = super().run(st, fr)
        n = 0
        while fr.thrown:
            s, e = fr.thrown.pop(0)
            n += 1
            if n > 200: raise Budget('exceptions')
            d = self.handler(fr, e)
            if d is None: s.ret = None; exits.append(s); continue
            caught = False
            for x in fr.pre.blocks[d]['s']:
                if x is None: continue
                lab = fr.pre.blocks[x].get('lab') or {}
                if lab.get('k') != 'CXXCatchStmt': continue
                cn = fr.pre.nodes[lab['catch']] if lab.get('catch') is not None else {}
                s2 = s.copy()
                s2.ghost['#cur'] = s2.ghost.pop('#throw')
                self.clear_env(s2, fr)
                inb = defaultdict(list)
                inb[x].append(s2)
                key = ('wto', x)
                if key not in fr.pre.pseudo: fr.pre.pseudo[key] = wto(fr.fn['blocks'], x)
                self.run_seq(fr.pre.pseudo[key], inb, fr)
                exits.extend(inb.get(fr.fn['exit'], []))
                if cn.get('all'): caught = True; break
            if not caught: s.ret = None; exits.append(s)
        return exits
    def x_CXXThrowExpr(self, st, fr, n):
        if n.get('c'):
            v = self.val(st, fr, n['c'][0])
            st.ghost['#throw'] = Opq('exc', ('thrown', n['l'], fr.fn['q']))
        else: st.ghost['#throw'] = st.ghost.get('#cur') or Opq('exc', ('rethrown',))
        return [st]
    def do_call(self, st, fr, n, fn, this, args):
        out = []
        for s, v in self.call(st, fr, fn, this, args, n):
            if '#throw' not in s.ghost: self.put(s, fr, n, v)
            out.append(s)
        return out

@K('std::current_exception')
def cur_exc(eng, st, fr, fn, this, args, node):
    loc = tmp(fr, node)
    v = st.ghost.get('#cur')
    st.mem[loc] = v if v is not None else ZERO
    return loc
@K('std::rethrow_exception')
def rethrow(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, args[0])
    st.ghost['#throw'] = v if isinstance(v, Opq) else Opq('exc', ('rethrown',))
    return ZERO
def exc_copy(eng, st, fr, fn, this, args, node):
    v = payload(eng, st, args[0]) if args else ZERO
    if v is None: return NotImplemented
    st.mem[this] = v
    return [(st, this)]
for _n in ('exception_ptr', 'operator='):
    CTAB['std::__exception_ptr::exception_ptr::' + _n] = exc_copy
    CTAB['std::exception_ptr::' + _n] = exc_copy

# ---------------------------------------------------------------- promises
def prom(st, p):
    return st.ghost.get(('prom', p))
def prom_key(st, this):
    v = st.mem.get(this)
    return v if isinstance(v, Opq) and v.tag == 'prom' else this
def store(st, k, v):
    """keep a copy of a value for whoever gets it"""
    return v
@K('std::promise::set_value')
def pr_set(eng, st, fr, fn, this, args, node):
    k = prom_key(st, this)
    if prom(st, k):
        eng.alarm('promise-twice', fr, node, 'a promise that is already fulfilled is fulfilled again')
        st.ghost['#throw'] = Opq('exc', ('future_error',)); return ZERO
    v = None
    if args:
        a = args[0]
        v = eng.getv(st, a) if isinstance(a, Loc) else a
    st.ghost[('prom', k)] = ('value', v)
    return ZERO
@K('std::promise::set_exception')
def pr_exc(eng, st, fr, fn, this, args, node):
    k = prom_key(st, this)
    if prom(st, k):
        eng.alarm('promise-twice', fr, node, 'a promise that is already fulfilled is fulfilled again')
        st.ghost['#throw'] = Opq('exc', ('future_error',)); return ZERO
    v = payload(eng, st, args[0])
    st.ghost[('prom', k)] = ('exc', v if isinstance(v, Opq) else Opq('exc', ('unknown',)))
    return ZERO
@K('std::promise::get_future')
def pr_fut(eng, st, fr, fn, this, args, node):
    k = prom_key(st, this)
    if st.ghost.get(('fut', k)):
        eng.alarm('future-twice', fr, node, 'the future of a promise is fetched a second time: this throws')
        st.ghost['#throw'] = Opq('exc', ('future_error',)); return ZERO
    st.ghost[('fut', k)] = 1
    loc = tmp(fr, node)
    st.mem[loc] = Opq('fut', ('prom', k))
    return loc
def fut_state(eng, st, fr, node, this):
    v = payload(eng, st, this)
    if not (isinstance(v, Opq) and v.tag == 'fut'): raise Budget('future not tracked')
    if v.args[0] is None: eng.alarm('no-future', fr, node, 'waits on a future that has no shared state'); return None
    if v.args[0] == 'task': return st.ghost.get(('task', v.args[1])), v
    return prom(st, v.args[1]), v
@K('std::future::wait')
def fut_wait(eng, st, fr, fn, this, args, node):
    r = fut_state(eng, st, fr, node, this)
    if r is None: return []
    if r[0] is None:
        eng.alarm('waits-forever', fr, node, 'waits for a result that no started task will provide'); return []
    return ZERO
@K('std::future::get')
def fut_get(eng, st, fr, fn, this, args, node):
    r = fut_state(eng, st, fr, node, this)
    if r is None: return []
    if r[0] is None:
        eng.alarm('waits-forever', fr, node, 'waits for a result that no started task will provide'); return []
    k, v = r[0]
    if isinstance(this, Loc): st.mem[this] = Opq('fut', (None, None))
    if k == 'exc': st.ghost['#throw'] = v; return ZERO
    if isinstance(v, Poly):
        loc = tmp(fr, node)
        eng.kill_tree(st, loc)
        st.mem[loc] = v
        return loc
    return ZERO
