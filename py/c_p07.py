"""P07: every checked conversion sets the success flag (when one is passed) and the global status on every path, and the two agree; a failed
conversion leaves its target unchanged.  Text-to-number conversion is interpreted abstractly over all its return paths with
the success flag present and absent; the 64-bit conversions of the C++ and C interfaces and the fraction entry points are
interpreted over the value-level model and compared with the exact range or zero condition."""
from common import *
from valmodel import *
import c_p16, c_p17, c_p20, textcheck

CONV = {'getInt64', 'getUInt64', 'tryGetInt64', 'tryGetUInt64'}

def run(ctx):
    F = ctx.F
    n = text(ctx, F)
    for fn in textcheck.readers(F):
        pmap(ctx, lambda c, r, fn=fn: textcheck.rejects(c, fn, r), [2, 10, 11, 16, 36] if ctx.tier != 'thorough' else list(range(2, 37)))
        textcheck.radices(ctx, fn)
    P = field(F, BI, 'unique_ptr')
    if not P: raise AnalysisBroken('public integer type has no owning pointer to the core object')
    for fn in sorted(F.fns.values(), key=lambda f: (f['q'], f['p'])):
        if 'blocks' not in fn or fn.get('cls') != BI: continue
        if fn['n'] in CONV or any('string_view' in p for p in fn['p']):
            for okp in (True, False):
                if c_p17.one(ctx, F, fn, P, False, okp): n += 1
    m = len(ctx.alarms)
    sub = ctx.sub()
    c_p16.run(sub, only=lambda q: 'Int64' in q and 'Get' in q or q.endswith('WithStr'))
    merge(ctx, sub, lambda a: True)
    n += sub.cov.get('configurations', 0)
    sub = ctx.sub()
    c_p20.run(sub)
    merge(ctx, sub, lambda a: a['rule'] in ('fraction-report', 'null-deref'))
    n += sub.cov.get('configurations', 0)
    ctx.cov['configurations'] = n
    if n < 20: raise AnalysisBroken('only %d conversion configurations analysed' % n)

def merge(ctx, sub, keep):
    for a in sub.alarms:
        if keep(a): ctx.alarms.append(a)
    ctx.undecided += sub.undecided; ctx.obl += sub.obl
    for s in sub.samples: ctx.sample(s)

def from_chars(eng, st, fr, fn, this, args, node):
    """a digit block is read completely, only in part, or not at all"""
    if len(args) < 3 or not (isinstance(args[0], Loc) and isinstance(args[1], Loc) and args[0].base == args[1].base): return NotImplemented
    a, b = args[0].path[-1], args[1].path[-1]
    out = []
    eng.obl['digit-block'] += 1
    r = strip_ref(fn['r'])
    for kind in ('all', 'part', 'none'):
        s = st.copy()
        loc = Loc((fr.id, 't', node['id']), ())
        if isinstance(args[2], Loc) and kind != 'none': s.mem[args[2]] = fresh('block', 0, 2 ** 32 - 1)
        if kind == 'part':
            k = fresh('read', 1, BIG)
            try: s.assume('<=', a + k - b + ONE)
            except Infeasible: continue
        p = b if kind == 'all' else (a if kind == 'none' else a + k)
        s.mem[Loc(loc.base, (r + '::ptr',))] = Loc(args[0].base, args[0].path[:-1] + (p,))
        s.mem[Loc(loc.base, (r + '::ec',))] = ZERO if kind != 'none' else C(22)
        if kind != 'all': s.ghost['badblock'] = node['l']
        out.append((s, loc))
    return out

def text(ctx, F):
    n = 0
    for fn in fn_by(F, IMPL + '::fromString'):
        okpos = [i for i, p in enumerate(fn['p']) if is_ptr(p) and 'bool' in p]
        for okp in (True, False):
            for radix in ('any', 10):
                eng = ValEngine(F, 'impl')
                eng.table['std::from_chars'] = from_chars
                eng.table['std::basic_string_view::data'] = lambda eng, st, fr, f2, this, args, node: [(st, Loc(('chars',), (ZERO,)))]
                st = State(); X = Loc(('X',), ()); st.mem[X] = va = fresh('a')
                st.mem[STATUS] = fresh('status0', 0, 2**32 - 1)
                sv = Loc(('sv',), ()); st.mem[sv] = Opq('sv', (Opq('text0', ()),))
                OKL = Loc(('ok',), ()); st.mem[OKL] = fresh('ok0', 0, 1)
                args = []
                for i, p in enumerate(fn['p']):
                    if 'string_view' in p: args.append(sv)
                    elif rng(p): args.append(fresh('radix', -2**31, 2**31 - 1) if radix == 'any' else C(10))
                    elif i in okpos: args.append(OKL if okp else ZERO)
                    else: args.append(ZERO)
                st.ghost['#a'] = va
                try: ex = eng.inline(st, None, fn, X, args, None)
                except Budget as e:
                    ctx.undec('%s: %s' % (fn['q'], e)); continue
                n += 1
                ctx.count('text_exits', len(ex))
                for a in eng.alarms.values(): ctx.alarm(a['rule'], a['file'], a['line'], fn['q'], a['msg'])
                for s, ret in ex:
                    stv, okv, tv = s.mem.get(STATUS), s.mem.get(OKL), s.mem.get(X)
                    ctx.obl += 3
                    touched = any(k.base == X.base and k != X for k in s.mem)
                    fact = 'status %s, ok %s, target %s' % (stv, okv, 'unchanged' if tv == s.ghost['#a'] and not touched else 'assigned')
                    ctx.sample('fromString: ' + fact)
                    def bad(msg): ctx.alarm('ok-status', fn['file'], fn['l'], fn['q'], msg + ' (exit with %s)' % fact, key='ok-status|' + msg)
                    if not isinstance(stv, Poly) or stv.const() is None:
                        if isinstance(stv, Poly) and any(S.name[x] == 'status0' for x in stv.syms()): bad('a return path leaves the status unset')
                        else: ctx.undec('fromString: status %s' % stv)
                        continue
                    succ = stv.const() == CODES['SUCCESS']
                    if okp:
                        if not isinstance(okv, Poly) or okv.const() is None:
                            if isinstance(okv, Poly) and any(S.name[x] == 'ok0' for x in okv.syms()): bad('a return path leaves the success flag unset')
                            else: ctx.undec('fromString: ok %s' % okv)
                            continue
                        if bool(okv.const()) != succ: bad('success flag and status disagree')
                    if not succ and touched: bad('a failing path writes the target')
                    if not succ and tv != s.ghost['#a']:
                        d = terms.differ(s, tv, s.ghost['#a'])
                        if d == 'unknown': 
                            # any definite write to the target on a failing path
                            bad('a failing path writes the target') if tv is not None and not isinstance(tv, Poly) else ctx.undec('fromString: target on failure')
                        elif d: bad('a failing path changes the target')
                    if succ and s.ghost.get('badblock'): bad('text with characters that are not digits is accepted (block read at line %s)' % s.ghost['badblock'])
                    if succ and not touched and tv == s.ghost['#a'] and isinstance(tv, Poly):
                        bad('a succeeding path leaves the target unassigned')
    return n
