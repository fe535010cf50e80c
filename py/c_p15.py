"""P15: parallel evaluation is interpreted over expressions covering every node kind, more nodes than the fixed node buffer holds,
native functions that throw and every thread count.  Rules: every node of the expression is started exactly once and after its
operands; its task fulfils its promise exactly once, also when the evaluation throws; nothing waits for a result that no task
submitted before provides (so every schedule completes, even with one worker); each future is fetched once; a task changes only
its own node; the pool gets a sane number of workers for every request; an exception of a native function reaches the caller."""
from pevalcheck import *
def run(ctx): run_all(ctx, True, False)
