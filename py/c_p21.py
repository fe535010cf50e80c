"""P21: every header is parsed on its own, twice in a row, and together with all other headers in forward and reverse order (compile witnesses);
every function and variable definition placed in a header is checked for non-inline external linkage; every function the headers
declare is defined by the library's units exactly once."""
from common import *
import glob, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
import facts

def headers():
    h = []
    for d in ('include', 'c/include', 'src', 'c/src'):
        for p in sorted(glob.glob(os.path.join(REPO, d, '**', '*.h'), recursive=True)): h.append(p)
    return h

def is_header(p): return not p.endswith(('.cpp', '.c', '.cc', '.cxx'))

def run(ctx):
    F = ctx.F
    H = headers()
    if len(H) < 10: raise AnalysisBroken('headers not found')
    W = os.path.join(facts.BUILD, 'p21-%d' % os.getpid())
    os.makedirs(W, exist_ok=True)
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'include'), '-I' + REPO]
    try:
        jobs = []
        rel = lambda p: os.path.relpath(p, REPO)
        for i, p in enumerate(H):
            jobs.append(('header %s is not self-contained' % rel(p), p, ['%s' % p], 'cpp'))
            jobs.append(('header %s cannot be included twice' % rel(p), p, [p, p], 'cpp'))
        jobs.append(('headers cannot all be included together', H[0], H, 'cpp'))
        jobs.append(('headers cannot all be included together in reverse order', H[-1], H[::-1], 'cpp'))
        for p in glob.glob(os.path.join(REPO, 'c', '**', '*.h'), recursive=True):
            jobs.append(('C header %s cannot be used from C' % rel(p), p, [p], 'c'))
        if ctx.tier == 'thorough':
            for a in H:
                for b in H:
                    if a != b: jobs.append(('header %s cannot be included after %s' % (rel(b), rel(a)), b, [a, b], 'cpp'))
        def one(k):
            what, p, hs, lang = jobs[k]
            src = os.path.join(W, 'u%d.%s' % (k, lang))
            with open(src, 'w') as f: f.write(''.join('#include "%s"\n' % h for h in hs))
            flags = [x for x in facts.FLAGS if not (lang == 'c' and x.startswith('-std'))]
            r = subprocess.run(['/usr/lib/llvm-18/bin/clang', '-fsyntax-only', '-x', 'c++' if lang == 'cpp' else 'c'] + flags + inc + [src], capture_output=True, text=True, timeout=300)
            return r.returncode, r.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(jobs))))
        for (what, p, hs, lang), (rc, err) in zip(jobs, res):
            ctx.obl += 1; ctx.count('compile_witnesses')
            if rc:
                first = next((l for l in err.split('\n') if 'error' in l), err[:300])
                ctx.alarm('self-contained' if len(hs) == 1 else 'include-again', p, 1, what, first.strip(), key='inc|' + what)
        # everything the headers define, in one unit that includes them all
        src = os.path.join(W, 'all.cpp')
        with open(src, 'w') as f: f.write(''.join('#include "%s"\n' % h for h in H))
        out = os.path.join(W, 'all.json')
        facts.export(src, out, inc)
        D = []
        if os.path.exists(out):
            with open(out) as f: d = json.load(f)
            D = [(x, 'header') for x in d['functions']]
            V = d['vars']
        else: V = []
        D += [(f, 'unit') for f in F.fns.values()]
        V = V + list(F.vars.values())
        seen = set()
        for f, _ in D:
            if not is_header(f['file']) or not f['file'].startswith(REPO) or f['id'] in seen or f.get('implicit'): continue
            seen.add(f['id'])
            ctx.obl += 1; ctx.count('header_functions')
            if f.get('linkage') == 6 and not f.get('inlined') and not f.get('tmplinst') and not f.get('lambda') and not f.get('defaulted'):
                ctx.alarm('odr', f['file'], f['l'], f['q'], 'non-inline function with external linkage is defined in a header', key='odr|' + f['q'])
        for v in V:
            if not is_header(v['file']) or not v['file'].startswith(REPO) or (v['q'], v['l']) in seen: continue
            seen.add((v['q'], v['l']))
            ctx.obl += 1; ctx.count('header_variables')
            if v.get('linkage') == 6 and v.get('isdef', v.get('init') is not None or v.get('val') is not None) and not v.get('inline') and not v.get('static_local') and not v.get('tmpl') and not (v.get('constexpr') and v.get('member')) and not (v.get('member') and not v.get('outofline', False)):
                ctx.alarm('odr', v['file'], v['l'], v['q'], 'non-inline variable with external linkage is defined in a header', key='odr|' + v['q'])
        # declared exactly once
        lib = lambda u: not u.startswith('driver/')
        occ = {i: [(u, f) for u, f in l if lib(u)] for i, l in F.occ.items()}
        decl = dict(F.declared)
        for i, d in decl.items():
            if not is_header(d['file']) or d.get('linkage') != 6: continue
            ctx.obl += 1; ctx.count('declared_functions')
            o = occ.get(i)
            if not o: ctx.alarm('defined', d['file'], d['l'], d['q'], 'declared in a header but defined nowhere in the library', key='undef|' + d['q'])
            elif len({u for u, f in o if not f.get('inlined') and f.get('linkage') == 6}) > 1:
                ctx.alarm('defined', d['file'], d['l'], d['q'], 'defined by several units: %s' % sorted({u for u, f in o}), key='multi|' + d['q'])
        for i, o in occ.items():
            us = {u for u, f in o if not f.get('inlined') and f.get('linkage') == 6 and not f.get('tmplinst') and not is_header(f['file'])}
            if len(us) > 1: ctx.alarm('defined', o[0][1]['file'], o[0][1]['l'], o[0][1]['q'], 'external definition in several units: %s' % sorted(us), key='multi|' + o[0][1]['q'])
        # a member template declared without a body is usable only for the types the library specialises it for: all plain integers
        import re
        sp = {}
        for i, o in occ.items():
            m = re.match(r'^(_ZNK?.*I)([bchijstlmxy])(EET_v)$', i)
            if m and o[0][1]['file'].endswith('.cpp') and not o[0][1].get('tmplinst'): sp.setdefault((m[1], m[3]), {})[m[2]] = o[0][1]
        for (a, b), got in sp.items():
            if len(got) < 4: continue
            for c, t in zip('bchijstlmxy', ('bool', 'char', 'unsigned char', 'int', 'unsigned int', 'short', 'unsigned short', 'long', 'unsigned long', 'long long', 'unsigned long long')):
                ctx.obl += 1; ctx.count('specialisations')
                if c not in got and a + c + b not in F.fns:
                    f = next(iter(got.values()))
                    ctx.alarm('defined', f['file'], f['l'], f['q'], 'the member template is specialised for other integers but not for %s' % t, key='spec|%s|%s' % (f['q'], t))
        ctx.sample('%d headers parse alone, twice, together and in reverse order; %d compile witnesses' % (len(H), len(jobs)))
    finally:
        shutil.rmtree(W, ignore_errors=True)
