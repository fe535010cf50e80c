"""P04: every arithmetic operation, comparison and sign query of the integer core is interpreted for every combination of operand
signs and word counts; result, quotient, remainder and three-way order must be those of the signed integers."""
from corerun import *
def run(ctx):
    run_core(ctx, want=lambda op: 'P04' in op.tags and light(op))
