"""P02: every operation of the integer core is interpreted from every shape of canonical operands; at every exit the result must be
canonical: valid sign flag, zero exactly when there are no words, non-zero top word, window inside its storage."""
from corerun import *
def run(ctx):
    run_core(ctx, want=light)
