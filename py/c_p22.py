"""P22: side-effect analysis over the typed syntax trees of the whole library.  Rule: an operation that is logically read-only (a
public const member, or an operation through a parameter that promises to only read) writes no memory of the objects it reads -
not through a mutable member, an owned pointer or a cast - and no variable of static storage, unless the write is synchronised
(atomic type, lock held), per-thread, or the one-time initialisation of a static variable."""
import re
from common import *
import effects
from effects import T
NSP = 'pg::base::bigNumber'

def ours(f): return f['q'].startswith(NSP) or f['q'].startswith('pgbn_') or '/c/' in f['file'] and '/repo' in f['file']
def lam(f): return str(f.get('cls') or '').startswith('(lambda')

def entry(f):
    """operations that several threads may run at the same time on the same operands"""
    if f.get('dtor') or lam(f): return False
    if f.get('cls') and not f.get('static'):
        if f.get('ctor'): return all(effects.readonly_param(t) or not (effects.isref(t) or effects.isptr(t)) for t in f['p'])
        return bool(f.get('const')) and f.get('access') not in (1, 2)
    return all(effects.readonly_param(t) or not (effects.isref(t) or effects.isptr(t)) or 'Status' in t or t.endswith('&&') or '/c/' in f['file'] for t in f['p'])

def modifier(f, q):
    """a function outside all objects that returns nothing and works on no number: its purpose is to change shared state"""
    return (not f.get('cls') or f.get('static')) and f.get('r') in ('void', 'bool') and not any('Integer' in t or 'Fraction' in t or 'Slice' in t for t in f['p'])

def short(q): return re.sub(r'<[^<>]*>', '', q).split('::')[-1]

def run(ctx):
    E = effects.Effects(ctx.F)
    ctx.count('functions', len(E.fns)); ctx.count('write_and_call_sites', E.n_sites)
    done = set()
    for i, f in sorted(E.fns.items(), key=lambda x: (x[1]['file'], x[1]['q'])):
        if not ours(f): continue
        if method_read(f, E): ctx.obl += 1; ctx.count('const_members')
        for k, t in enumerate(f['p']):
            if effects.readonly_param(t): ctx.obl += 1; ctx.count('read_only_parameters')
        for r, ss in E.W[i].items():
            if r == T and method_read(f, E): what = 'is a constant member but changes the object'
            elif r != T and r[0] == 'P' and effects.readonly_param(f['p'][r[1]]): what = 'promises to only read its parameter %d but changes it' % (r[1] + 1)
            else: continue
            for s in ss.values():
                key = 'write|%s|%s' % (s.get('field') or s['what'], short(f['q']))
                if key in done: continue
                done.add(key)
                ctx.alarm('read-only-writes', s['file'], s['line'], s['function'], '%s %s (%s in %s): two threads that read the same number race' % (f['q'], what, s['what'], s['function'].split('::')[-1]), key=key)
        if entry(f):
            ctx.obl += 1; ctx.count('read_only_operations')
            for r, ss in E.W[i].items():
                if r == T or r[0] != 'G': continue
                if effects.SYNC.search(r[2]) or modifier(f, r[1]): continue
                for s in ss.values():
                    key = 'static|%s|%s %s' % (r[1].split('::')[-1], s['function'].split('::')[-1], s['what'])
                    if key in done: continue
                    done.add(key)
                    ctx.alarm('static-write', s['file'], s['line'], s['function'], 'the read-only operation %s changes %s, which all threads share (%s in %s)' % (f['q'], r[1], s['what'], s['function'].split('::')[-1]), key=key)
    ctx.sample('%d const members, %d read-only parameters, %d read-only operations' % (ctx.cov.get('const_members', 0), ctx.cov.get('read_only_parameters', 0), ctx.cov.get('read_only_operations', 0)))

def method_read(f, E): return bool(f.get('cls')) and E.judged(f) and not f.get('static')
