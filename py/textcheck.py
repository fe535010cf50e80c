"""Obligations on text conversion shared by P41 (values), P19 (bounds) and P07 (rejection)."""
from textmodel import *
from common import *

def width(r):
    w = 1
    while r ** (w + 1) < 2 ** 32: w += 1
    return w

def digits(r, n, pat):
    """n abstract digit characters of radix r, the first one non-zero; upper and lower case letters alternate"""
    cs = []
    for i in range(n):
        lo = 1 if i == 0 else 0
        k = (i + pat) % 3 if r > 10 else 0
        if k == 0: cs.append(C(48) + fresh('x', lo, min(r, 10) - 1))
        else: cs.append(C(87 if k == 1 else 55) + fresh('x', 10, r - 1))
    return cs

def place(st, chars, key='input'):
    """the text inside a larger buffer of digits; nothing outside the text may be read"""
    p = arr(st, key, chars, False)
    sv = Loc(('sv', key), ())
    st.mem[sv] = Opq('sv', (mk(chars), p))
    return sv

def parse(ctx, fn, r, chars, what, value=None, okp=True, rules=('value', 'bounds')):
    """interpret the text reader on a text of abstract characters; value None: the text has to be rejected"""
    F = ctx.F
    eng = TextEngine(F, max_steps=400000)
    st = State(); X = Loc(('X',), ()); va = fresh('a'); st.mem[X] = va
    st.mem[STATUS] = fresh('status0', 0, 2 ** 32 - 1)
    sv = place(st, chars)
    OK = Loc(('ok',), ()); st.mem[OK] = fresh('ok0', 0, 1)
    args = []
    for p in fn['p']:
        if 'string_view' in p: args.append(sv)
        elif is_ptr(p): args.append(OK if okp else ZERO)
        elif rng(p): args.append(C(r))
        else: ctx.undec('%s: parameter %s' % (fn['q'], p)); return
    st.ghost['exp'] = value if value is not None else ZERO
    st.ghost['old'] = va
    ctor = bool(fn.get('ctor'))
    if ctor: st.mem.pop(X)
    try: ex = eng.inline(st, None, fn, X, args, None)
    except Budget as e:
        ctx.undec('%s, %s: %s' % (fn['q'], what, e)); ex = None
    ctx.count('texts'); ctx.count('exit_states', len(ex or ()))
    ctx.obl += len(eng.parsed)
    if 'bounds' in rules:
        for i, n, l, q in eng.parsed:
            if i < 0 or n > len(chars) or n < i:
                ctx.alarm('text-bounds', fn['file'], l, q, 'a block of characters [%d, %d) of a text of %d is read (%s)' % (i, n, len(chars), what), key='text-bounds|%s' % l)
        for a in eng.alarms.values():
            ctx.alarm(a['rule'], a['file'], a['line'], fn['q'], a['msg'] + ' (%s)' % what, key='%s|%s|%s' % (a['rule'], a['file'], a['line']))
    if 'value' not in rules or ex is None: return
    if not ex and not eng.alarms:
        ctx.alarm('text-abort', fn['file'], fn['l'], fn['q'], 'reading a text ends in an abort: %s' % what, key='text-abort'); return
    for s, ret in ex:
        ctx.obl += 1
        code = s.mem.get(STATUS)
        if not isinstance(code, Poly) or code.const() is None:
            ctx.undec('%s, %s: status %s' % (fn['q'], what, code)); continue
        okv = s.mem.get(OK)
        succ = code.const() == CODES['SUCCESS']
        if value is None:
            if succ: ctx.alarm('text-accepted', fn['file'], fn['l'], fn['q'], 'a text that is not a number is accepted: %s' % what, key='text-accepted|' + what.split(':')[0])
            elif okp and okv != ZERO and isinstance(okv, Poly): ctx.alarm('ok-status', fn['file'], fn['l'], fn['q'], 'a rejected text leaves the success flag %s: %s' % (okv, what), key='ok|rejected')
            elif not ctor and s.mem.get(X) != s.ghost['old']:
                d = terms.differ(s, s.mem.get(X), s.ghost['old']) if isinstance(s.mem.get(X), Poly) else 'unknown'
                if d and d != 'unknown': ctx.alarm('failed-target', fn['file'], fn['l'], fn['q'], 'a rejected text changes the target: %s' % what, key='failed-target')
            continue
        if not succ:
            ctx.alarm('text-rejected', fn['file'], fn['l'], fn['q'], 'a number is rejected with status %s: %s' % (code, what), key='text-rejected|' + what.split(':')[0]); continue
        if okp and okv != ONE and isinstance(okv, Poly):
            ctx.alarm('ok-status', fn['file'], fn['l'], fn['q'], 'an accepted text leaves the success flag %s: %s' % (okv, what), key='ok|accepted')
        got, exp = s.mem.get(X), s.ghost['exp']
        if not isinstance(got, Poly): ctx.undec('%s, %s: value %s' % (fn['q'], what, got)); continue
        if s.cmp0('==', got - exp) is True: ctx.count('values_equal'); continue
        d = terms.differ(s, got, exp)
        if d == 'unknown': ctx.undec('%s, %s: value' % (fn['q'], what))
        elif d: ctx.alarm('text-value', fn['file'], fn['l'], fn['q'], '%s is read as %s instead of %s' % (what, d.get('got'), d.get('expected')), key='text-value|' + what.split(':')[0])
        else: ctx.count('values_compared')

def value_of(chars, r):
    v, st = ZERO, State()
    for c in chars: v = v * C(r) + digit_of(st, c, r)
    return v

def readers(F):
    return [f for f in F.byq.get(IMPL + '::fromString', []) if 'blocks' in f] + \
           [f for f in F.byq.get(IMPL + '::BigIntegerImpl', []) if 'blocks' in f and any('string_view' in p for p in f['p'])]

def numbers(ctx, fn, r, rules=('value', 'bounds')):
    w = width(r)
    ls = sorted({1, 2, w - 1, w, w + 1, 2 * w, 2 * w + 1, 3 * w - 1} - {0}) if ctx.tier != 'thorough' else range(1, 5 * w + 2)
    for n in ls:
        for pat in ((0, 1, 2) if r > 10 else (0,)):
            d = digits(r, n, pat)
            v = value_of(d, r)
            for k, (sg, z) in enumerate((('', 0), ('-', 0), ('+', 0), ('', 1), ('-', w), ('', 2 * w + 1))):
                if ctx.tier != 'thorough' and k > 1 and n not in (1, w, w + 1): continue
                cs = [C(ord(sg))] if sg else []
                parse(ctx, fn, r, cs + [C(48)] * z + d, 'radix %d: %s%d zeros and %d digits' % (r, sg, z, n), -v if sg == '-' else v, okp=(k + n) % 2 == 0, rules=rules)
    for sg in ('', '+', '-'):
        for z in (1, w, 3 * w):
            parse(ctx, fn, r, ([C(ord(sg))] if sg else []) + [C(48)] * z, 'radix %d: %s%d zeros' % (r, sg, z), ZERO, rules=rules)

def rejects(ctx, fn, r, rules=('value', 'bounds')):
    """texts that are no numbers"""
    for t in ('', '+', '-', '+-', '--', '++', '-+'): parse(ctx, fn, r, [C(ord(c)) for c in t], 'text "%s": radix %d' % (t, r), rules=rules)
    w = width(r)
    bad = [('a character below the digits', lambda: fresh('c', 0, 42)), ('a character between + and -', lambda: C(44)), ('a point or slash', lambda: fresh('c', 46, 47)), ('a character between digits and letters', lambda: fresh('c', 58, 64)),
           ('a character between the letters', lambda: fresh('c', 91, 96)), ('a character behind the letters', lambda: fresh('c', 123, 127)), ('a negative character', lambda: fresh('c', -128, -1)), ('a plus', lambda: C(43)), ('a minus', lambda: C(45))]
    if r < 10: bad.append(('a digit too large', lambda: fresh('c', 48 + r, 57)))
    for base, nm in ((97, 'small'), (65, 'capital')):
        if r < 36: bad.append(('a %s letter too large' % nm, lambda base=base: fresh('c', base + max(0, r - 10), base + 25)))
    for n in ((1, 3, w + 2, 2 * w) if ctx.tier != 'thorough' else range(1, 2 * w + 3)):
        for nm, mkc in bad:
            ps = {0, n - 1, n // 2, w, w - 1} if ctx.tier != 'thorough' else range(n)
            for p in sorted(ps):
                if p >= n: continue
                if p == 0 and nm in ('a plus', 'a minus'): continue       # a sign
                for lead in ('', '-'):
                    if lead and (n > 3 or nm in ('a plus', 'a minus') and p < 1): continue
                    d = digits(r, n, 0)
                    d[p] = mkc()
                    parse(ctx, fn, r, [C(ord(c)) for c in lead] + d, '%s: radix %d, %s%d characters, at %d' % (nm, r, lead, n, p), rules=rules)
    if True:
        for z in (1, w):           # behind leading zeros
            parse(ctx, fn, r, [C(48)] * z + [C(45)] + digits(r, 2, 0), 'a sign behind zeros: radix %d' % r, rules=rules)
def long_text(ctx, fn, r, n):
    """a text of very many digits must not be turned down before its digits are looked at; the text is interpreted up to the first block"""
    eng = TextEngine(ctx.F, max_steps=2000)
    st = State(); X = Loc(('X',), ())
    if not fn.get('ctor'): st.mem[X] = fresh('a')
    st.mem[STATUS] = fresh('status0', 0, 2 ** 32 - 1)
    b = ('chars', 'input'); st.ghost[('len', b)] = n
    sv = Loc(('sv', 'input'), ()); st.mem[sv] = Opq('sv', (mk([C(49)] * n), Loc(b, (ZERO,))))
    args = []
    for p in fn['p']:
        if 'string_view' in p: args.append(sv)
        elif is_ptr(p): args.append(ZERO)
        elif rng(p): args.append(C(r))
        else: return
    ctx.obl += 1; ctx.count('long_texts')
    try: ex = eng.inline(st, None, fn, X, args, None)
    except Budget: return          # its digits are being read
    cs = [s.mem.get(STATUS) for s, _ in ex]
    if cs and not eng.parsed and all(isinstance(c, Poly) and c.const() not in (None, CODES['SUCCESS']) for c in cs):
        ctx.alarm('text-rejected', fn['file'], fn['l'], fn['q'], 'a number of %d digits in radix %d is rejected with status %s before its digits are read' % (n, r, cs[0]), key='text-rejected|long')

def radices(ctx, fn):
    for r in (-2 ** 31, -1, 0, 1, 37, 2 ** 31 - 1, 64):
        parse(ctx, fn, r, digits(10, 3, 0), 'radix %d: outside 2..36' % r)
    parse(ctx, fn, 0, [C(48)], 'radix 0: outside 2..36')

def write(ctx, fn, r, sign, blocks, plan, w, top=False):
    """interpret the text writer on an abstract number of the given number of blocks"""
    F = ctx.F
    eng = TextEngine(F, max_steps=2000000); eng.plan = plan
    st = State(); X = Loc(('X',), ())
    st.mem[STATUS] = ZERO
    m = fresh('m', r ** (w * (blocks - 1)), r ** (w * blocks) - 1) if sign else ZERO
    st.mem[X] = m if sign >= 0 else -m
    st.ghost['exp'] = m
    what = 'radix %d, %s%d blocks of %d digits' % (r, {1: '', -1: 'negative, ', 0: 'zero, '}[sign], blocks, w)
    args = [C(r)] + [ZERO] * (len(fn['p']) - 1)
    try: ex = eng.inline(st, None, fn, X, args, None)
    except Budget as e:
        ctx.undec('%s, %s: %s' % (fn['q'], what, e)); return
    ctx.count('numbers_written'); ctx.count('exit_states', len(ex))
    for a in eng.alarms.values():
        ctx.alarm(a['rule'], a['file'], a['line'], fn['q'], a['msg'] + ' (%s)' % what, key='%s|%s|%s' % (a['rule'], a['file'], a['line']))
    if not ex and not eng.alarms:
        ctx.alarm('text-abort', fn['file'], fn['l'], fn['q'], 'writing a number ends in an abort: %s' % what, key='text-abort'); return
    def bad(msg): ctx.alarm('text-form', fn['file'], fn['l'], fn['q'], '%s (%s)' % (msg, what), key='text-form|' + msg.split(':')[0])
    lens, unclear = set(), False
    for s, ret in ex:
        ctx.obl += 1
        t = txt(eng, s, ret)
        if t is None: unclear = True; ctx.undec('%s, %s: text not known' % (fn['q'], what)); continue
        if t and t[0].const() == 45 and sign >= 0: bad('a minus is written'); continue
        if sign < 0:
            if not t or t[0].const() is None: ctx.undec('%s, %s: sign' % (fn['q'], what)); continue
            if t[0].const() != 45: bad('no minus is written'); continue
            t = t[1:]
        if not t: bad('no digits are written'); continue
        lens.add(len(t))
        v, fail = ZERO, False
        for c in t:
            d = digit_of(s, c, r)
            if d is False: bad('a character that is no digit is written: %s' % c); fail = True; break
            if d is None: ctx.undec('%s, %s: character %s' % (fn['q'], what, c)); fail = True; break
            v = v * C(r) + d
        if fail: continue
        if sign == 0:
            if v != ZERO or len(t) != 1: bad('zero is written with %d characters' % len(t))
            continue
        exp = s.ghost['exp']
        if s.cmp0('==', v - exp) is not True:
            df = terms.differ(s, v, exp)
            if df == 'unknown': ctx.undec('%s, %s: value' % (fn['q'], what)); continue
            if df: bad('another number is written: %s instead of %s' % (df.get('got'), df.get('expected'))); continue
            ctx.count('values_compared')
        else: ctx.count('values_equal')
        d0 = digit_of(s, t[0], r)
        if s.cmp0('!=', d0) is not True:
            if terms.satisfiable(s, [('==', d0)]): bad('the text starts with a zero')
            else: ctx.undec('%s, %s: first digit' % (fn['q'], what))
    if sign and blocks == 1 and plan == (None,) and not unclear and ctx.alarms == []:
        miss = sorted(set(range(1, w + 1)) - lens)
        if miss: ctx.alarm('text-abort', fn['file'], fn['l'], fn['q'], 'numbers of %s digits in radix %d are never written: that path ends in an abort' % (miss[:5], r), key='text-abort')
