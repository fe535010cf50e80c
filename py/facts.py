"""Runs the clang fact exporter over the current /repo sources and loads the merged program facts."""
import os, sys, json, hashlib, subprocess, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PGBN_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class AnalysisBroken(Exception):
    pass

def sh(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()

def exporter():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(VERIF, 'tool', 'exporter.cpp'), os.path.join(VERIF, 'tool', 'build.sh')]
    key = hashlib.sha256(''.join(sh(s) for s in src).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'exporter-' + key)
    if not os.path.exists(out):
        with open(os.path.join(BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                tmp = out + '.tmp%d' % os.getpid()
                r = subprocess.run(['bash', src[1], tmp], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken('exporter does not build: ' + r.stderr[-2000:])
                os.rename(tmp, out)
    return out

# analysis units: (name, source, extra flags)
def units():
    u = []
    for s in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True)):
        u.append((os.path.relpath(s, REPO), s))
    for s in sorted(glob.glob(os.path.join(REPO, 'c', 'src', '*.cpp'))):
        u.append((os.path.relpath(s, REPO), s))
    for s in sorted(glob.glob(os.path.join(VERIF, 'tool', 'driver', '*.cpp'))):
        u.append(('driver/' + os.path.basename(s), s))
    return u

FLAGS = ['-std=gnu++17', '-DPGBN_DEBUG', '-DPGZXB_DEBUG', '-D__STDC_FORMAT_MACROS',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']

def tree_key():
    h = hashlib.sha256()
    for d in ('src', 'include', 'c'):
        for root, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(sh(p).encode())
    for f in sorted(glob.glob(os.path.join(VERIF, 'tool', '**', '*'), recursive=True)):
        if os.path.isfile(f):
            h.update(sh(f).encode())
    return h.hexdigest()[:24]

class Facts:
    pass

def export(src, out, inc):
    r = subprocess.run([exporter(), out, REPO + '/src,' + REPO + '/c,' + REPO + '/include,' + VERIF + '/tool/driver', src, '--'] + FLAGS + inc,
                       capture_output=True, text=True, timeout=300)
    return r

def load(only=None):
    """Export every unit (cached by content of the tree) and merge."""
    exe = exporter()
    key = tree_key()
    cdir = os.path.join(BUILD, 'facts-' + key)
    us = units()
    if only:
        us = [u for u in us if u[0] in only]
    os.makedirs(cdir, exist_ok=True)
    def one(u):
        name, src = u
        out = os.path.join(cdir, name.replace('/', '__') + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            inc = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'include'), '-I' + REPO]
            r = subprocess.run([exe, tmp, REPO + '/src,' + REPO + '/c,' + REPO + '/include,' + VERIF + '/tool/driver', src, '--'] + FLAGS + inc,
                               capture_output=True, text=True, timeout=300)
            if not os.path.exists(tmp):
                raise AnalysisBroken('exporter failed on %s: %s' % (name, r.stderr[-2000:]))
            os.rename(tmp, out)
        with open(out) as f:
            return name, json.load(f)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, us))
    # keep only a few cached fact sets
    olds = sorted((d for d in glob.glob(os.path.join(BUILD, 'facts-*')) if d != cdir), key=os.path.getmtime)
    for d in olds[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    F = Facts()
    F.fns, F.records, F.enums, F.vars, F.units = {}, {}, {}, {}, []
    F.occ = {}          # fn id -> list of units defining it
    F.unit_of = {}
    F.declared = {}
    for name, d in res:
        if d['errors']:
            raise AnalysisBroken('%s does not parse (%s errors)' % (name, d['errors']))
        F.units.append(name)
        for f in d['functions']:
            F.occ.setdefault(f['id'], []).append((name, f))
            if f['id'] not in F.fns or ('blocks' in f and 'blocks' not in F.fns[f['id']]):
                F.fns[f['id']] = f
                F.unit_of[f['id']] = name
        for x in d.get('declared', []): F.declared.setdefault(x['id'], dict(x, unit=name))
        for r in d['records']:
            F.records.setdefault(r['q'], r)
        for e in d['enums']:
            F.enums.setdefault(e['q'], e)
        for v in d['vars']:
            k = (v['q'], v['file'], v['l'])
            if k not in F.vars or (v.get('val') and not F.vars[k].get('val')):
                F.vars[k] = v
    F.varq = {}
    for v in F.vars.values():
        F.varq.setdefault(v['q'], v)
        if v.get('defn') == 1 or v.get('val'):
            F.varq[v['q']] = v
    F.byq = {}
    for f in F.fns.values():
        F.byq.setdefault(f['q'], []).append(f)
    return F

if __name__ == '__main__':
    F = load()
    print(len(F.units), 'units', len(F.fns), 'functions', sum(1 for f in F.fns.values() if 'blocks' in f), 'bodies')
