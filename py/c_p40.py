"""P40: every arithmetic kernel is interpreted over symbolic words, partitioned by word counts, signs, window position, left-over
words, sharing and cached index; the value of the result words, a polynomial over the operand words, is compared with the
mathematical result.  The division and recursive multiplication kernels are analysed on their own and replaced by their contracts
in their callers.  Bounds: operands of up to 2 to 3 words (4 in division, 80 around the kernel switch)."""
from corerun import *
import kara
def run(ctx):
    run_core(ctx, want=lambda op: 'P40' in op.tags)
    kara.run_kara(ctx)
