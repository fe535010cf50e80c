"""P11: a malformed expression is reported as an error and not evaluated.  The pipeline behind expr::eval is interpreted for every
sequence of token kinds up to a bound, for every text one token edit away from a set of well-formed expressions and for texts
with lexical errors, with registered functions of every arity class, constants, empty and missing symbols.  The reference grammar
decides which of them are malformed: those must return zero with an error status, call nothing and dereference no absent
operand; the well-formed ones must be accepted.  Rules: accepted-malformed, rejected-well-formed, null-deref, element-bounds,
symbol-kind, text-bounds, no-progress."""
import itertools
from exprmodel import *
from common import *
import exprref, c_p10
from exprref import Malformed, Unspecified
from c_p10 import EVAL, interpret, outcome, native_value

def table_of(val, s):
    """what the path found out about the names it looked up"""
    t = {}
    for n in s.ghost.get('lookups', ()):
        name = text_of(val, n.args[0].args)
        k = (n.args[1], n.args[2] if len(n.args) > 2 else None)
        if t.setdefault(name, k) != k: raise terms.Bad()
    return t
def text_of(val, chars):
    return ''.join(chr(val.ev(c) % 256) for c in chars)
def reference(text, table):
    """('value', tree) | ('error', why) | None when unspecified"""
    def sym(n):
        k = table.get(n) or c_p10.FUNCS.get(n) or ('none', None)       # the hook answers for these names
        return None if k[0] in ('none', 'mono') else k
    try: return 'value', exprref.parse(exprref.lex(text, sym))
    except Malformed as e: return 'error', str(e)
    except Unspecified: return None

def verify(ctx, text=None, chars=None, want=3, status_arg=False, rules=None, value=True, secs=3, fix=None):
    """interpret a text; on every exit compare outcome and reference for some valuations of its abstract parts; -> exits"""
    label = text if text is not None else show(chars)
    try: eng, fn, exits, lits = interpret(ctx.F, text, status_arg, fix or {}, chars, secs=secs, noeval=not value)
    except Budget as e:
        ctx.undec('%r: %s' % (label, e)); return 0
    ctx.count('texts'); ctx.count('exit_states', len(exits))
    for a in eng.alarms.values():
        if rules is None or a['rule'] in rules:
            ctx.alarm(a['rule'], a['file'], a['line'], a.get('function') or EVAL, 'evaluating %r: %s' % (label, a['msg']), key='%s|%s|%s' % (a['rule'], a.get('function'), a['line']))
    if not exits and not eng.alarms:
        ctx.undec('%r: no path returns' % label)
    ok = CODES.get('SUCCESS', 0)
    for s, ret in exits:
        ctx.obl += 1
        stat, v = outcome(eng, s, ret)
        s2 = s.mem.get(Loc(('status2',), ())) if status_arg else None
        if v is None or stat is None: ctx.undec('%r: result not tracked' % label); continue
        cs = s.ghost['in'][0].args
        names = [k for k in s.ghost if isinstance(k, tuple) and k[0] == 'lit']
        ts = [v, stat] + [s.ghost[k] for k in names] + [c for c in cs if c.const() is None]
        vals = [None]
        if any(isinstance(t, Poly) and t.const() is None for t in ts) or s.ghost.get('calls') or s.facts or s.neq or s.eqs:
            vals = terms.models(s, ts, (), tries=400, want=want)
        seen = 0
        for val in vals:
            if val is None: val = terms.Valuation(s, {})
            try:
                tx = text_of(val, cs); tab = table_of(val, s)
                r = reference(tx, tab)
                if r is None: seen += 1; continue
                st = val.ev(stat); got = val.ev(v)
                err2 = val.ev(s2) != ok if isinstance(s2, Poly) else True
                if r[0] == 'error':
                    seen += 1
                    if st == ok or s.ghost.get('evaluated') or (value and got != 0) or s.ghost.get('calls') or not err2:
                        ctx.alarm('accepted-malformed', fn['file'], fn['l'], EVAL, 'the malformed text %r (%s) %s' % (tx, r[1],
                            'is evaluated' + (': it yields %s' % got if value else '') if got != 0 or s.ghost.get('calls') or s.ghost.get('evaluated') else 'is not reported as an error' + ('' if err2 else ' in the status passed')), key='accepted|%s' % r[1]); break
                    continue
                if not value:
                    seen += 1
                    if 'PARSE' in stat_names(st): ctx.alarm('rejected-well-formed', fn['file'], fn['l'], EVAL, 'the well-formed text %r is rejected with status %s' % (tx, stat_names(st)), key='rejected|' + stat_names(st)); break
                    continue
                env = {k[1]: val.ev(s.ghost[k]) for k in names}
                exp = None
                try: exp = exprref.value(r[1], lambda l: env.get(l[2], l[0]), native_value(val, s))
                except Unspecified: pass
                seen += 1
                if any(x in stat_names(st) for x in ('PARSE',)):
                    ctx.alarm('rejected-well-formed', fn['file'], fn['l'], EVAL, 'the well-formed text %r is rejected with status %s' % (tx, stat_names(st)), key='rejected|' + stat_names(st)); break
                if exp is not None and got != exp and value:
                    ctx.alarm('expr-value', fn['file'], fn['l'], EVAL, 'the value of %r is %s, its meaning is %s' % (tx, str(got)[:60], str(exp)[:60]), key='expr-value|' + label); break
            except terms.Bad: continue
            except terms.Unknown as e: ctx.undec('%r: %s' % (label, e)); break
        ctx.count('compared_valuations', seen)
        if not seen: ctx.undec('%r: no valuation' % label)
    return len(exits)

def unbounded_operand(text):
    """well-formed, but an exponent, shift count or factorial operand is an abstract value"""
    try: t = exprref.parse(exprref.lex(text, c_p10.symbols))
    except (Malformed, Unspecified): return False
    def leaf(t): return t[0] in ('value', 'call') or any(leaf(x) for x in t[1:] if isinstance(x, tuple) and t[0] != '#')
    def walk(t):
        if t[0] == '#': return False
        if t[0] == '!' and leaf(t[1]) or t[0] in ('**', '<<', '>>') and leaf(t[2]): return True
        return any(walk(x) for x in t[1:] if isinstance(x, tuple))
    return walk(t)

def stat_names(code):
    for n, c in CODES.items():
        if c == code: return n
    return str(code)
def show(chars):
    return ''.join(chr(c.const() % 256) if c.const() is not None else '\u00b7' for c in chars)

def sequences(thorough):
    A1 = ['#', '(', ')', ',', '?', ':', '+', '*', '!', 'f', 'c', '~', 'g', 'h']
    A2 = ['#', '(', ')', ',', '?', ':', '*', 'h']
    out = [()]
    for n in (1, 2, 3): out += list(itertools.product(A1, repeat=n))
    out += list(itertools.product(A2 if not thorough else A1[:11], repeat=4))
    if thorough: out += list(itertools.product(A2, repeat=5))
    seeds = ['f ( # , # )', 'g ( # , # )', 'h ( )', '# ? # : #', '( # )', '( # + # ) * #', 'f ( )', 'f ( ( # ) )', '# ? # ? # : # : #', 'g ( # , f ( # ) )',
             '- # ** #', '# << # == #', '~ ( # | # )', 'f ( # ? # : # )', '# ! + #', 'c * ( c - # )', 'g ( ( # , # ) )', '# & # ^ #', '+ # % #', 'f ( # , # , # )']
    for sd in seeds:
        t = sd.split()
        for i in range(len(t) + 1):
            for x in ['#', '(', ')', ',', '?', ':', '+', '**', '!', 'f', 'g', 'h', 'c', '==', '>>']:
                out.append(tuple(t[:i] + [x] + t[i:]))
                if i < len(t): out.append(tuple(t[:i] + [x] + t[i + 1:]))
            if i < len(t): out.append(tuple(t[:i] + t[i + 1:]))
            out.append(tuple(t[:i]))
            for j in range(i + 1, len(t)):
                if thorough or j == i + 1: out.append(tuple(t[:i] + [t[j]] + t[i + 1:j] + [t[i]] + t[j + 1:]))
    return list(dict.fromkeys(out))

LEXICAL = ['=', '1=2', '1===2', '= =', '$', '1$', '1+$', '@1', '.', '.5', '1+.5', '0x', '0x+1', '08', '0x1.5', '017.5', '037x1', '01x1', '00x1', '1a', '12z+1', '0a', 'zz', 'zz(1)', '1+zz', 'f(zz)',
           'm', 'm(1)', '1+m', 'f', 'f 1', '#', '"1"', '1;2', '[1]', '{1}', '1\\', '`', "'", '1 2', '0x1 0x2', '0xg', '09', '02x2', '036xzz', '036x', '099x1', '0999', '1_', '_', '_1(1)', 'f_', 'f1(1)', 'F(1)',
           '', ' ', '\t\n', '1\x80', '\xff', '1+\x7f', '()', '(())', '1()', '2(3)', '(1)(2)', '1 f(2)', 'f(1)(2)', 'f()()', 'c()', 'c(1)', 'h(1)', 'g()', 'g(1)', 'g(1,2,3)', 'g(1,2,)', 'f(,)', 'f(1,,2)', 'f(1', 'f(', 'f(1,', '1?', '1?2',
           '1?2:', '1?:2', '?1:2', '1:2', '1?2:3:4', '1?2?3:4', '(1?2):3', '1?(2:3)', '!', '!1', '1!!2', '**', '1**', '**1', '1***2', '1****2', '1<>2', '1=<2', '1=>2', '1=!2', '1<<<2', '1>>>2', '~', '1~', '1~2', '--', '1--', ')', '1)', '(1', '((1)', ',', '1,2', '1 !=', '!= 1', 'f(1?2)', 'f(1:2)', 'f)1(', ')(',
           '1 + + ', '1 + * 2', '1 & & 2', '1 && 2', '1 || 2', '1 |', '| 1', '^', '1 ^', '% 1', '1 %', '1 / ', '/ 1', '1 // 2', '1 == ', '== 1', '1 < ', '< 1', '1 >= ', '>>', '1 << ', '<< 1']

WELL = ['1 ', ' 1', '\t1\n', ' \r\n 1 + 2 \t ', '1+2   ', 'f( 1 , 2 ) ', 'f ( ) ', 'c ', ' c', 'k2', 'k2+1', '_p(1)', 'A_b3c*2', 'A_b3c', '0', '00', '0 ', '0+1', '007', '017', '0x1F', '0x1f ', '0xAbC', '02x101', '036xzZ', '016xff', '010x99',
        '03x12+1', '9x9'[:1], '1!', '0!', '(0)', '1!=2', '1! !=2', '1!==1'[:3], '1<=2', '1>=2', '1<<2', '8>>1', '1==1', '2**3', '~0', '-1', '- - 1', '1- -1', '1 - 2 - 3', 'g(1,2)', 'g(f(1),h())', 'h()', 'h( )', '1?2:3', '1 ? 2 : 3 ', '0x10?1:2',
        '123456789012345678901234567890', '1' * 70, '0x' + 'f' * 70, '((1))', 'f((1))', 'f(1)?f(2):f(3)', '36', '10', '100', '99x'[:2]]

def run(ctx):
    F = ctx.F
    if not [f for f in F.byq.get(EVAL, []) if 'blocks' in f]: raise AnalysisBroken('expr::eval not found')
    items = []
    texts = set()
    for t in LEXICAL: texts.add((t, False)); texts.add((t, True))
    ctx.cov['lexical_texts'] = len(LEXICAL)
    for t in WELL: texts.add((t, False)); texts.add((t, True))
    n = 0
    for seq in sequences(ctx.tier == 'thorough'):
        k = 0; out = []
        bounded = any(x in ('!', '**', '<<', '>>') for x in seq)
        for x in seq:
            if x == '#': out.append(str(((2, 3, 1, 2, 3) if bounded else (101, 2, 3, 102, 103))[k % 5])); k += 1
            else: out.append(x)
        t = ' '.join(out)
        if bounded and unbounded_operand(t): continue
        texts.add((t, n % 5 == 0)); n += 1
    ctx.cov['token_sequences'] = n
    items = sorted(texts)
    items = [t for i, t in enumerate(items)]
    chunks = [items[i::128] for i in range(128)]
    def work(sub, ch):
        for t, sa in ch:
            if late(sub, t): continue
            try: verify(sub, t, status_arg=sa)
            except AnalysisBroken: raise
            except Exception as e: sub.undec('%r: %r' % (t, e))
    pmap(ctx, work, chunks)
