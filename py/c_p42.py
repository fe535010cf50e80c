"""P42: bitwise operations, shifts, word reads and the import of two's-complement bytes are interpreted over symbolic words; the value
of the result must equal the operation on infinite two's-complement integers (Python's integers) for every valuation looked at."""
from corerun import *
def run(ctx):
    run_core(ctx, want=lambda op: 'P42' in op.tags)
