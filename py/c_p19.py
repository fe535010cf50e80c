"""P19: caller buffers.  The word-level core operations that import and export bytes are interpreted with abstract words and byte counts
from nothing to more than the number has: no byte behind the given length is written or read, no word behind the number is read,
and the reported length equals what was written.  Text given with a length is a view inside a larger buffer: reading any
character outside it, and handing it to a function that expects a terminator, is an alarm; the digit blocks read tile the text.
The C and C++ entry points pass buffer and length through unchanged."""
from corerun import *
from valmodel import *
import c_p07, c_p16, c_p17, c_p10, c_p11, textcheck

BOUNDS = ('text-bounds', 'element-bounds')

def run(ctx):
    F = ctx.F
    run_core(ctx, want=lambda op: 'P19' in op.tags)
    P = field(F, BI, 'unique_ptr')
    if not P: raise AnalysisBroken('public integer type has no owning pointer to the core object')
    n = 0
    for fn in sorted(F.fns.values(), key=lambda f: (f['q'], f['p'])):
        if 'blocks' not in fn or fn.get('cls') != BI: continue
        if any('void *' in p or 'string_view' in p for p in fn['p']):
            if c_p17.one(ctx, F, fn, P, False): n += 1
    sub = ctx.sub()
    c_p16.run(sub, only=lambda q: 'Bin' in q or 'MagData' in q or q.endswith('Str') or 'ToString' in q)
    c_p07.merge(ctx, sub, lambda a: True)
    n += sub.cov.get('configurations', 0)
    ctx.cov['entry_points'] = n
    # text views
    for fn in textcheck.readers(F):
        def one(c, r, fn=fn):
            textcheck.numbers(c, fn, r, ('bounds',)); textcheck.rejects(c, fn, r, ('bounds',))
        pmap(ctx, one, [2, 10, 16, 36] if ctx.tier != 'thorough' else list(range(2, 37)))
    for fn in [f for f in F.byq.get(IMPL + '::toString', []) if 'blocks' in f]:
        def out(c, r, fn=fn):
            sub = c.sub()
            w = 1
            while r ** (w + 1) < 2 ** 63: w += 1
            for b in (1, 2): textcheck.write(sub, fn, r, 1, b, (None,) * 1 if b == 1 else (None, (1, 0)), w)
            c_p07.merge(c, sub, lambda a: a['rule'] in BOUNDS + ('text-abort',))
        pmap(ctx, out, list(range(2, 37)))
    views(ctx, F)
    if n < 6: raise AnalysisBroken('only %d buffer entry points analysed' % n)

TEXTS = ['1', '12', '1+2', '0x1f', '017', 'c', 'f(1)', 'g(1,2)', '1?2:3', '1 ', '1.5', '1!', '(1)', '', ' ', 'k2', '1+', 'f(', '0x', '0', '1*', '1<', '1=', '1!', 'c ', '#', '1.', '02x1']
def views(ctx, F):
    """expression texts as views inside a larger buffer"""
    def one(c, t):
        try: eng, fn, ex, _ = c_p10.interpret(F, t, noeval=True, secs=20)
        except Budget as e: c.undec('expression "%s": %s' % (t, e)); return
        c.count('expression_views'); c.obl += 1
        for a in eng.alarms.values():
            if a['rule'] in BOUNDS: c.alarm(a['rule'], a['file'], a['line'], fn['q'], a['msg'] + ' (text "%s")' % t, key='%s|%s|%s' % (a['rule'], a['file'], a['line']))
    pmap(ctx, one, TEXTS)
