"""P10: every operator symbol of an expression evaluates to its documented operation on its operands in the written order, with
the documented precedence levels and grouping.  The whole pipeline behind expr::eval (characters, tokens, tree, evaluation) is
interpreted abstractly for every operator, every ordered pair of binary operators, every unary and postfix operator next to
every binary one, brackets, conditionals, calls and constants; the operands are abstract integers.  Every exit state's value is
compared with the reference meaning of the text over the valuations of that state."""
import itertools, random
from exprmodel import *
from common import *
import exprref
from exprref import BIN, UN, LEVELS, Malformed, Unspecified

EVAL = NS + 'expr::eval'
FUNCS = {'f': ('func', -1), 'g': ('func', 2), 'h': ('func', 0), 'c': ('value', None), 'k2': ('value', None), '_p': ('func', 1), 'A_b3c': ('value', None)}
def symbols(name): return FUNCS.get(name)

def hook_symbols(chars):
    n = const_text(chars)
    return ((FUNCS[n],) if n in FUNCS else (('mono', None),) if n == 'm' else (('none', None),)) if n is not None else (('none', None), ('func', 1), ('value', None), ('mono', None))

def const_places(t, inside=False, out=None):
    """literals of a tree whose value is a shift count, exponent or factorial operand"""
    if out is None: out = set()
    k = t[0]
    if k == '#':
        if inside: out.add(t[1][2])
        return out
    for i, x in enumerate(t[1:]):
        if isinstance(x, tuple): const_places(x, inside or k == '!' or (k in ('**', '<<', '>>') and i == 1), out)
    return out

SMALL = [4, 2, 3, 5, 1]
def render(shape, fixed=()):
    """text of a shape: # is the next operand, 101, 102, ... for abstract ones, a small constant for fixed ones"""
    out, n, f = [], 0, 0
    for tk in shape:
        if tk == '#':
            if n in fixed: out.append(str(SMALL[f % len(SMALL)])); f += 1
            else: out.append(str(101 + n))
            n += 1
        else: out.append(tk)
    return out
def join(toks, sep=''):
    s = ''
    for t in toks: s += (sep if s else '') + t
    return s

def prepare(shape, sep=None):
    """(text, tree) with constants where the reference meaning needs bounded operands; None if it is not worth analysing"""
    n = shape.count('#')
    fixed = set()
    for _ in range(4):
        toks = render(shape, fixed)
        text = None
        for sp in ((sep,) if sep is not None else ('', ' ')):
            s = join(toks, sp)
            try: lx = exprref.lex(s, symbols)
            except Malformed: continue
            if len(lx) == len(toks) + 1: text = s; break
        if text is None: return None
        tree = exprref.parse(lx)
        need = {int(d) - 101 for d in const_places(tree) if len(d) == 3}
        if not need: return text, tree
        fixed |= need
    return None

def native_value(val, s):
    """values of constants and of calls of registered functions under a valuation: those the path recorded, else the term itself"""
    calls = []
    for n, a, r in s.ghost.get('calls', ()):
        try: calls.append((n, tuple(val.ev(x) for x in a), val.ev(r)))
        except (terms.Unknown, terms.Bad): pass
    def f(name, args):
        if args is None:
            c = s.ghost.get(('const', name))
            return val.ev(c if c is not None else app(('const', name), (Opq('name', (name,)),)))
        for n, a, r in calls:
            if n == name and a == args: return r
        return val.op(('native', name), list(args), -BIG, BIG, None)
    return f

def interpret(F, text, status_arg=False, fix=(), chars=None, steps=1500000, secs=3, noeval=False):
    eng = ExprEngine(F, 'bi', max_steps=steps)
    eng.deadline = time.process_time() + secs
    st = State()
    cs = chars or tuple(C(ord(c)) for c in text)
    st.mem[STATUS] = C(CODES.get('SUCCESS', 0))
    A = Loc(('arg',), ())
    st.mem[A] = Opq('sv', (mk(cs), arr(st, ('user',), cs, False)))
    lits = {}
    def literal(st, t, radix):
        if radix == 10 and len(t) == 3 and t[0] == '1' and t.isdigit():
            if t in fix: return C(fix[t])
            if t not in lits: lits[t] = fresh('x' + t, 0, BIG)
            st.ghost[('lit', t)] = lits[t]
            return lits[t]
    eng.hooks['literal'] = literal
    if noeval: eng.hooks['noeval'] = True
    eng.hooks['symbols'] = hook_symbols
    S2 = ZERO
    if status_arg:
        S2 = Loc(('status2',), ()); st.mem[S2] = C(CODES.get('SUCCESS', 0))
    fn = [f for f in F.byq.get(EVAL, []) if 'blocks' in f][0]
    st.ghost['in'] = (mk(cs),)
    exits = eng.inline(st, None, fn, None, [A, S2][:len(fn['p'])], None)
    return eng, fn, exits, lits

def outcome(eng, s, ret):
    """(status polynomial, value polynomial) at an exit"""
    v = None
    if isinstance(ret, Loc):
        x = eng.getv(s, ret)
        v = x if isinstance(x, Poly) else None
    return s.mem.get(STATUS), v

def check_text(ctx, text, tree, shape):
    """interpret text and compare with its tree; -> exits"""
    res = None
    names = sorted({d for d in re.findall(r'\b1\d\d\b', text)})
    r0 = random.Random(7)
    for fix in ({}, {n: 2 + i for i, n in enumerate(names[1:])}, {n: 5 - i for i, n in enumerate(names)}):
        try: res = interpret(ctx.F, text, fix=fix); break
        except Budget as e: why = e
        except (KeyError, IndexError, TypeError) as e: why = repr(e)
    if res is None: ctx.undec('%s: %s' % (text, why)); return 0
    eng, fn, exits, lits = res
    ctx.count('texts'); ctx.count('exit_states', len(exits))
    if not exits:
        ctx.alarm('expr-lost', fn['file'], fn['l'], EVAL, 'no path of the evaluation of "%s" returns' % text, key='expr-lost|' + text); return 0
    for s, ret in exits:
        ctx.obl += 1
        stat, v = outcome(eng, s, ret)
        if v is None: ctx.undec('%s: result not tracked' % text); continue
        lv = {d: s.ghost[('lit', d)] for d in names if ('lit', d) in s.ghost}
        syms = tuple(lv.values()) + tuple(x for k, x in s.ghost.items() if isinstance(k, tuple) and k[0] == 'const') + tuple(x for c in s.ghost.get('calls', ()) for x in c[1] + c[2:])
        unk = bad = None
        n = 0
        for val in terms.models(s, [v] + list(syms), (), tries=600, want=24):
            env = {d: (fix[d] if d in fix else val.ev(lv[d]) if d in lv else 0) for d in names}
            try: exp = exprref.value(tree, lambda l: env.get(l[2], l[0]), native_value(val, s))
            except (Unspecified, terms.Bad): continue
            try: got = val.ev(v)
            except terms.Unknown: unk = True; break
            except terms.Bad: continue
            n += 1
            if got != exp:
                bad = (env, got, exp); break
        if unk: ctx.undec('%s: result %s' % (text, v))
        elif bad:
            ctx.alarm('expr-value', fn['file'], fn['l'], EVAL, 'the value of "%s" is %s on the path with %s; with %s it is %s, its meaning is %s' % (
                text, str(v)[:120], 'those operands', {k: x for k, x in bad[0].items()}, str(bad[1])[:60], str(bad[2])[:60]), key='expr-value|' + ' '.join(shape))
        elif n == 0: ctx.undec('%s: no valuation' % text)
        else: ctx.count('compared_valuations', n)
        if len(ctx.samples) < 3: ctx.sample('"%s" -> %s' % (text, str(v)[:200]))
    for a in eng.alarms.values():
        ctx.alarm(a['rule'], a['file'], a['line'], EVAL, 'evaluating "%s": %s' % (text, a['msg']), key='%s|%s|%s' % (a['rule'], a.get('fn', ''), a['line']))
    return len(exits)

def shapes(thorough):
    B, U = BIN, UN
    out = ['#', '( # )', 'c', 'h ( )', 'f ( )', 'f ( # )', 'f ( # , # )', 'f ( # , # , # )', 'g ( # , # )', 'f ( f ( # ) , # )',
           'f ( # ? # : # , # )', 'f ( # ) ? # : #', 'c ? c : #', '# !', '0 !', '1 !', '2 !', '0 ! + #', '# * 1 !', '- 0 !', 'c ** 0', 'c ** 1', '0 ** #', '# << 0', 'c >> 0', 'c >> 1', 'c % 2', 'c / 2', 'c / - 2', '# ! !', '( # ) !']
    for o in B:
        out += ['# %s #' % o, 'c %s #' % o if o not in ('**',) else 'c ** #', '# %s f ( # )' % o if o not in ('**', '<<', '>>') else 'f ( # ) %s #' % o,
                'f ( # %s # , # )' % o, '( # %s # )' % o, '# ! %s #' % o, '# %s # !' % o if o not in ('**', '<<', '>>') else '# %s # ! ' % o,
                '# %s # ? # : #' % o, '# ? # %s # : #' % o, '# ? # : # %s #' % o, '( # ? # : # ) %s #' % o]
        for u in U:
            out += ['%s # %s #' % (u, o), '%s ( # %s # )' % (u, o)]
            if o not in ('**', '<<', '>>'): out.append('# %s %s #' % (o, u))
            else: out.append('# %s + #' % o)
    for u in U:
        out += ['%s #' % u, '%s # !' % u, '%s # ? # : #' % u, '# ? %s # : %s #' % (u, u), '%s f ( # )' % u, '%s c' % u]
        for w in U: out.append('%s %s #' % (u, w))
    out += ['# ? # : # ? # : #', '# ? # ? # : # : #', '( # ? # : # ) ? # : #', '# ? ( # ? # : # ) : #']
    for o1 in B:
        for o2 in B:
            out.append('# %s # %s #' % (o1, o2))
    reps = [l[0] for l in LEVELS]
    for o1 in B:
        for o2 in reps:
            out.append('# %s ( # %s # )' % (o1, o2)); out.append('( # %s # ) %s #' % (o2, o1))
    # more nodes than any fixed buffer holds
    out.append(' '.join(['#'] + ['+ #'] * 20)); out.append(' '.join(['#'] + ['- #'] * 36))
    out.append(' '.join(['('] * 40 + ['#'] + [')'] * 40)); out.append(' '.join(['-'] * 41 + ['#']))
    out.append('f ( ' + ' , '.join(['#'] * 24) + ' )')
    if thorough:
        pick = reps + ['!=', '>=', '>>', '-', '/', '%']
        for t in itertools.product(pick, repeat=3): out.append('# %s # %s # %s #' % t)
        for u in U:
            for o1 in reps:
                for o2 in reps: out.append('%s # %s # %s %s' % (u, o1, o2, '#' if o2 in ('**', '<<', '>>') else u + ' #'))
        for o1 in reps:
            for o2 in reps:
                for p in ('# %s # ? # %s # : #', '# ? # %s # : # %s #', 'f ( # %s # , # %s # )'): out.append(p % (o1, o2))
    return [tuple(s.split()) for s in dict.fromkeys(out)]

def run(ctx):
    F = ctx.F
    if not [f for f in F.byq.get(EVAL, []) if 'blocks' in f]: raise AnalysisBroken('expr::eval not found')
    SH = shapes(ctx.tier == 'thorough')
    items = []
    for sh in SH:
        p = prepare(sh)
        if p is None: ctx.undec('shape %s' % ' '.join(sh)); continue
        items.append((sh,) + p)
    for sh in SH[:120]:                       # white space between tokens changes nothing
        for sep in (' ', '\t', '\n'):
            p = prepare(sh, sep)
            if p and sep != ' ' and len(items) % 7: continue
            if p: items.append((sh,) + p)
    items.sort(key=lambda i: len(i[1]) % 7)
    chunks = [items[i::64] for i in range(64)]
    def work(sub, ch):
        for sh, text, tree in ch:
            if late(sub, text): continue
            try: check_text(sub, text, tree, sh)
            except AnalysisBroken: raise
            except Exception as e: sub.undec('%s: %r' % (text, e))
        return len(ch)
    pmap(ctx, work, chunks)
    ctx.cov['operators'] = len(BIN) + len(UN) + 3
    if ctx.cov.get('texts', 0) < 200: ctx.undec('few texts were interpreted')
