"""check.py <property> [--tier T]: run one check, write evidence, report violations."""
import sys, os, json, time, importlib, traceback
t0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Ctx, VERIF, shortline, AnalysisBroken
import facts

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('c_' + pid.lower())
    ctx = Ctx(pid, tier)
    try: mod.run(ctx)
    except Exception as e:
        # the analysis itself failed part-way: what it found stands; what it did not reach is recorded as undecided.
        # with nothing decided at all (or during development) there is no answer to give
        if os.environ.get('PGBN_STRICT') or (not ctx.alarms and not ctx.obl): raise
        traceback.print_exc()
        ctx.undec('analysis stopped early: %s: %s' % (type(e).__name__, str(e)[:200]))
        print('INCOMPLETE property=%s analysis stopped early (%s)' % (pid, type(e).__name__))
    known = load_known(pid)
    viol, kf = [], []
    for a in ctx.alarms:
        k = next((x for x in known if x['match'] == a['key']), None)
        (kf if k else viol).append((a, k))
    level = getattr(mod, 'LEVEL', 'other')
    cov = dict(ctx.cov)
    cov['obligations'] = ctx.obl
    cov['undecided'] = len(ctx.undecided)
    if ctx.undecided: cov['undecided_items'] = sorted(set(ctx.undecided))[:60]
    cov['units'] = len(ctx.F.units)
    cov['functions_in_program'] = sum(1 for f in ctx.F.fns.values() if 'blocks' in f)
    cov['samples'] = ctx.samples
    cov.setdefault('explanation', getattr(mod, '__doc__', '') or '')
    cov['rule'] = (mod.__doc__ or '').strip()
    cov['known_findings'] = len(kf)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=ctx.assumptions)
    EVD = os.environ.get('PGBN_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for a, k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        rp = os.path.join(EVD, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for a, _ in viol:
                f.write('%s: [%s] %s: %s\n' % (shortline(a), a['rule'], a['function'], a['msg']))
                if a.get('chain'): f.write('    path: %s\n' % ' > '.join(a['chain']))
        for a, _ in viol[:20]:
            print('%s: [%s] %s: %s%s' % (shortline(a), a['rule'], a['function'], a['msg'], (' (via ' + ' > '.join(a['chain']) + ')') if a.get('chain') else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('%s: held; %d obligations, %d undecided, %.1fs' % (pid, ctx.obl, len(ctx.undecided), time.time() - t0))

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == pid]

try:
    main()
except SystemExit:
    raise
except AnalysisBroken as e:
    print('analysis broken: %s' % e); sys.exit(2)
except Exception:
    traceback.print_exc(); sys.exit(2)
