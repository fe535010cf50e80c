"""P05: every operation is interpreted with distinct operands, identical operands, results that are operands and operands sharing
storage; operands that are not results must keep their values and results must equal those of the unaliased operation."""
from corerun import *
def run(ctx):
    run_core(ctx, want=light)
