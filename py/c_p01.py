"""P01: every mutating operation of the integer core is interpreted from states in which another integer shares the storage of an
operand or of the target (complete copy, low words, high words); at every exit the sharing integer must still denote its value,
copies must denote the source's value and swaps must exchange the values."""
from corerun import *
def run(ctx):
    run_core(ctx, want=light)
