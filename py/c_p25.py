"""P25: a moved-from integer can be destroyed, assigned, copied and compared, and the target of the move has the source's former value.
Core: every move construction, move assignment and swap is interpreted for all entry shapes; the moved-from object must be
canonical, or every later assignment, copy and comparison on it must work.  Public type and fraction: the move is interpreted
over the value-level model (ownership of the core object included); afterwards every public member and operator is interpreted
with the moved-from object in each operand position: none may reach an absent core object, and assignments must yield the
assigned value."""
from corerun import *
from valmodel import *
import c_p17, c_p20

X, Y, Z = Loc(('X',), ()), Loc(('Y',), ()), Loc(('Z',), ())
IM = {X: Loc(('implX',), ()), Y: Loc(('implY',), ()), Z: Loc(('implZ',), ())}

def run(ctx):
    F = ctx.F
    run_core(ctx, want=lambda op: 'P25' in op.tags and light(op))
    P = field(F, BI, 'unique_ptr')
    if not P: raise AnalysisBroken('public integer type has no owning pointer to the core object')
    moves = [f for f in F.fns.values() if 'blocks' in f and f.get('cls') == BI and len(f['p']) == 1 and f['p'][0].rstrip().endswith('&&') and c_p17.isbi(f['p'][0])]
    uses = [f for f in F.fns.values() if 'blocks' in f and f.get('ours') and not f.get('access') == 2 and (f.get('cls') == BI or (f['q'].startswith(NS + 'operator') and any(c_p17.isbi(p) for p in f['p'])))]
    moves.sort(key=lambda f: (f['q'], f['p'])); uses.sort(key=lambda f: (f['q'], f['p']))
    n = 0
    for mv in moves:
        for selfmove in ((False,) if mv.get('ctor') else (False, True)):
            for st, vals in moved(ctx, F, mv, P, selfmove):
                n += 1
                dead = X if selfmove else Y
                for fn in uses: ctx.count('uses_after_move', use(ctx, F, fn, mv, P, st, dead))
    ctx.cov['move_functions'] = [m['q'] + sig(m) for m in moves]
    if n < 2: raise AnalysisBroken('only %d moves of the public integer type analysed' % n)

def obj(st, P, loc, v):
    st.mem[Loc(loc.base, (P,))] = IM[loc]; st.mem[IM[loc]] = v

def val(s, P, loc):
    o = s.mem.get(Loc(loc.base, loc.path + (P,)))
    return s.mem.get(o) if isinstance(o, Loc) else None

def moved(ctx, F, mv, P, selfmove):
    """states after the move; checks the target"""
    st = State()
    st.mem[STATUS] = C(CODES['SUCCESS'])
    a, b = fresh('a'), fresh('b')
    if not mv.get('ctor'): obj(st, P, X, a)
    if not selfmove: obj(st, P, Y, b)
    st.ghost['#e'] = a if selfmove else b
    eng = ValEngine(F, 'impl')
    name = mv['q'] + sig(mv)
    try: ex = eng.inline(st, None, mv, X, [X if selfmove else Y], None)
    except Budget as e:
        ctx.undec('%s: %s' % (name, e)); return []
    for al in eng.alarms.values(): ctx.alarm(al['rule'], al['file'], al['line'], name, al['msg'])
    out = []
    for s, r in ex:
        ctx.obl += 1
        v, e = val(s, P, X), s.ghost['#e']
        p = s.mem.get(Loc(X.base, (P,)))
        if isinstance(p, Poly) and p.const() == 0: ctx.alarm('move-target', mv['file'], mv['l'], name, 'the target of the move owns no core object', key='move-target|' + name)
        elif v is None: ctx.undec('%s: value of the target' % name)
        else:
            d = terms.differ(s, v, e)
            if d == 'unknown': ctx.undec('%s: value of the target' % name)
            elif d: ctx.alarm('move-target', mv['file'], mv['l'], name, 'the target of the move%s has value %s instead of %s' % (' (the source itself)' if selfmove else '', v, e), key='move-target|' + name)
            q = s.mem.get(Loc(Y.base, (P,))) if not selfmove else None
            if q == p and isinstance(q, Loc): ctx.alarm('move-shared', mv['file'], mv['l'], name, 'both objects own the same core object after the move', key='move-shared|' + name)
        out.append((s, None))
    return out

def use(ctx, F, fn, mv, P, st0, dead):
    """interpret one public function with the moved-from object in every position"""
    ps = fn['p']
    member = fn.get('cls') == BI and not fn.get('static')
    pos = ([-1] if member and not fn.get('ctor') else []) + [i for i, t in enumerate(ps) if c_p17.isbi(t)]
    n = 0
    name = fn['q'] + sig(fn)
    for at in pos:
        st = st0.copy()
        v = fresh('z'); obj(st, P, Z, v)
        args = []; exp = None; skip = False
        for i, t in enumerate(ps):
            if c_p17.isbi(t):
                args.append(dead if i == at else Z)
                if i != at: exp = v
            elif rng(t):
                w = fresh('n', *((0, 63) if fn['n'] in ('operator<<', 'operator>>', 'operator<<=', 'operator>>=') else rng(t)))
                args.append(w); exp = w
            elif 'string_view' in t:
                L = Loc(('str',), ()); st.mem[L] = Opq('sv', (Opq('text0', ()),)); args.append(L)
            elif is_ref(t) and rng(strip_ref(t)):
                L = Loc(('out',), ()); st.mem[L] = fresh('out0', *rng(strip_ref(t))); args.append(L)
            elif is_ptr(t) and 'bool' in t: args.append(ZERO)
            elif is_ptr(t): args.append(Loc(('bin',), (ZERO,)))
            else: skip = True
        if skip: continue
        this = (dead if at == -1 else (Loc(('new',), ()) if fn.get('ctor') else Z)) if member else None
        st.ghost['#e'] = exp if exp is not None else ZERO
        eng = ValEngine(F, 'impl')
        try: ex = eng.inline(st, None, fn, this, args, None)
        except Budget as e:
            ctx.undec('%s after %s: %s' % (name, mv['n'], e)); continue
        n += 1; ctx.obl += 1
        for al in eng.alarms.values():
            ctx.alarm(al['rule'] if al['rule'] not in ('null-deref', 'null-object') else 'use-after-move', al['file'], al['line'], name,
                      '%s with an object moved from by %s: %s' % (name, mv['q'] + sig(mv), al['msg']), key='use-after-move|%s|%s' % (name, mv['q'] + sig(mv)))
        if at == -1 and exp is not None and not fn.get('ctor') and fn['n'] in ('operator=', 'assign') and len(ps) == 1:
            for s, r in ex:
                ctx.obl += 1
                g, e = val(s, P, dead), s.ghost['#e']
                if g is None: ctx.undec('%s after %s: value' % (name, mv['n'])); continue
                d = terms.differ(s, g, e)
                if d == 'unknown': ctx.undec('%s after %s: value' % (name, mv['n']))
                elif d: ctx.alarm('use-after-move', fn['file'], fn['l'], name, 'assigning to a moved-from object gives %s instead of %s' % (g, e), key='use-after-move|%s' % name)
    return n
