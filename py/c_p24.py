"""P24: every arithmetic operation is interpreted over symbolic words with machine-exact unsigned and signed word arithmetic (wraps,
truncations and shifts at their C++ widths); result words must assemble to the exact mathematical result, word indices must stay
inside their storage and no internal assertion may fail."""
from corerun import *
def run(ctx):
    run_core(ctx, want=lambda op: 'P24' in op.tags)
