"""P12: splitting and parsing any finite text terminates at its end and never reads behind it.  The pipeline behind expr::eval is
interpreted over texts whose characters are abstract (every combination of one or two arbitrary characters, arbitrary characters
inside and at the end of literals, names, brackets and white space) and over every prefix of a set of expressions, with and
without trailing white space.  Rules: text-bounds (a character outside the text is read), element-bounds (a token outside the
token list), no-progress (a loop comes back to the state it was in, or runs on without any decision, or a call repeats one that
is still running), and whether the text is accepted exactly when the reference accepts it."""
from exprmodel import *
from common import *
import c_p11, c_p10
from c_p10 import EVAL

def texts(thorough):
    T = ['1+2*3', 'f(1,2)', '0x1f', '012', '036xz', '0', '1', 'c', 'k2', '_p(1)', '1?2:3', '12.5', '1<2', 'g(f(1),2)', '1 + 2 ', '(1)', '2**3', '1!=2', '1==1', '1<<2', '8>>1', '~1', '-1', '02x1', 'A_b3c', '1 ? c : f ( 2 ) ', '1!']
    out = []
    seen = set()
    for t in T + ['((((1))))', 'f(f(f(1)))', '1?2?3:4:5', 'x' * 40, '1' * 60, ' ' * 70, '1' + ' ' * 70, '(' * 40, 'f(' * 30, '-' * 50, '1+' * 30, '1' + '!' * 60, 'f(' + '1,' * 30, '1?' * 30, '0x' + '1' * 50, '1.' + '2' * 50, '\t' * 3 + '1']:
        for i in range(len(t) + 1):
            if len(t) > 30 and i < len(t) - 1: continue
            for ws in ('', ' ', '\n\t'):
                if t[:i] + ws not in seen: seen.add(t[:i] + ws); out.append((t[:i] + ws, None))
    def ab(pat):          # ? stands for an arbitrary character
        out.append((None, pat))
    for p in ('\x01', '\x01\x01', '0\x01', '0x\x01', '0\x01x\x01', '1\x01', '1.\x01', 'c\x01', '\x01c', '\x01 ', ' \x01', '*\x01', '<\x01', '>\x01', '=\x01', '!\x01', 'f(\x01', 'f(1\x01', 'f(1,\x01', 'f(1)\x01', '1+\x01', '(1\x01', '1?\x01', '1?2\x01', '1?2:\x01',
              '0\x01\x01', '1 \x01', '1\n\x01', '_\x01', 'k\x01', '00\x01', '01\x01', '1\x01 2', '1 \x01 2', '1\x012', '1.\x01\x01'[:3]): ab(p)
    for t in T:
        for i in range(len(t)):
            ab(t[:i] + '\x01' + t[i + 1:])
            if thorough: ab(t[:i] + '\x01' + t[i:])
        ab(t + '\x01')
    if thorough:
        for p in ('0\x01\x01x', '0\x01\x01\x01', '1\x01\x01', 'f\x01\x01', '\x01 \x01', '\x011\x01', '\x01\x011', '1\x01\x012', 'f(\x01\x01', '0x\x01\x01', 'c\x01\x01', '*\x01\x01'): ab(p)
    return list(dict.fromkeys(out))

def run(ctx):
    F = ctx.F
    if not [f for f in F.byq.get(EVAL, []) if 'blocks' in f]: raise AnalysisBroken('expr::eval not found')
    items = texts(ctx.tier == 'thorough')
    def one(sub, it):
        t, pat = it
        try:
            if t is not None: c_p11.verify(sub, t, value=False)
            else:
                cs = tuple(fresh('c%d' % i, -128, 127) if c == '\x01' else C(ord(c)) for i, c in enumerate(pat))
                sub.count('abstract_texts')
                c_p11.verify(sub, None, cs, want=4, value=False, secs=20 if ctx.tier == 'quick' else 120)
        except AnalysisBroken: raise
        except Exception as e: sub.undec('%r: %r' % (it, e))
    items.sort(key=lambda it: -(it[1] or '').count('\x01'))
    pmap(ctx, one, items)
