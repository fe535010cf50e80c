"""P41: text to number and number to text are interpreted for every radix with abstract digits.  A text's digits are symbols, so the
number read from it is a polynomial in them that has to equal the positional value (proved as a polynomial identity); the number
written is an abstract integer split into abstract digits, and the digits of the text have to assemble to it, without a leading
zero.  Texts of every digit count up to several blocks around the block boundaries, with signs, leading zeros and mixed letter
case; texts that are no numbers have to be rejected with the target unchanged; numbers of one to three blocks, every digit count
of each block."""
from textcheck import *

def run(ctx):
    F = ctx.F
    rd = readers(F); wr = [f for f in F.byq.get(IMPL + '::toString', []) if 'blocks' in f]
    if not rd or not wr: raise AnalysisBroken('text conversion functions not found')
    def one(c, r):
        for fn in rd:
            numbers(c, fn, r)
            if r in (2, 9, 10, 11, 16, 35, 36) or c.tier == 'thorough': rejects(c, fn, r)
        if r in (2, 10, 36):
            for fn in rd: long_text(c, fn, r, 120000 if c.tier != 'thorough' else 1200000)
        w = 1
        while r ** (w + 1) < 2 ** 63: w += 1
        for fn in wr:
            write(c, fn, r, 0, 1, (), w)
            for sg in (1, -1):
                write(c, fn, r, sg, 1, (None,), w)
                for b in range(2, 4 if c.tier != 'thorough' else 6):
                    for k in range(b): 
                        if c.tier == 'thorough' or k < 2 or r in (2, 10, 16, 36): write(c, fn, r, sg, b, tuple(None if i == k else (1, 0) for i in range(b)), w)
        return 1
    pmap(ctx, one, list(range(2, 37)))
    for fn in rd: radices(ctx, fn)
    ctx.sample('%s: the value of every text of symbolic digits, as a polynomial in the digits' % rd[0]['q'])
    ctx.sample('%s: the digits written, as symbols assembled to the number' % wr[0]['q'])
    ctx.cov['radices'] = 35
    if ctx.cov.get('texts', 0) < 500: raise AnalysisBroken('only %d texts analysed' % ctx.cov.get('texts', 0))
