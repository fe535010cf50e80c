import sys, time, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'py'))
from common import *
from corerun import *
pid = sys.argv[1]; names = sys.argv[2:]
ctx = Ctx(pid, 'quick')
t = time.time()
n = run_core(ctx, only=names or None)
print(n, 'exits', round(time.time() - t, 1), 's'); print(ctx.cov)
for a in ctx.alarms[:12]: print('ALARM', a['rule'], a['line'], a['function'].split('::')[-1], a['msg'][:600])
print(len(ctx.alarms), 'alarms')
import collections
u = collections.Counter(x.split('::')[-1][:40]+' '+x.split(']: ')[-1][:120] for x in ctx.undecided)
for k, v in u.most_common(12): print(v, k)
