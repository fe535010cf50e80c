"""P23: every operation that grows a number is interpreted from states whose storage holds arbitrary left-over words before and behind
the window; no result word may depend on a left-over word and no word outside the storage may be touched."""
from corerun import *
def run(ctx):
    run_core(ctx, want=light)
