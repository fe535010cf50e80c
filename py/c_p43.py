"""P43: parallel evaluation is interpreted abstractly for every operator, operator pairs, conditionals, calls and constants with
abstract operands, and with native functions that throw; the value (or exception) of every exit state is compared with the
meaning of the expression, which P10 shows to be the value of sequential evaluation."""
from pevalcheck import *
def run(ctx): run_all(ctx, False, True)
