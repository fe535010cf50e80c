"""P03: every operation of the integer core is interpreted from states with and without a cached first-non-zero-word index (and with
stale remains of one); at every exit a cached index must describe the words the result has, and two's-complement reads must return
the words of the value."""
from corerun import *
def run(ctx):
    run_core(ctx, want=light)
