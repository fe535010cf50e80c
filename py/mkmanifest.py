"""writes /verif/MANIFEST.json from the table below (run by hand when a check is added)"""
import json, os, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = json.load(open(V + '/py/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in T['checks'] and os.path.exists(V + '/py/c_%s.py' % i.lower()):
        c = T['checks'][i]
        checks.append(dict(property=i, quick_cmd='./check.sh %s' % i, thorough_cmd='./check.sh %s --thorough' % i, technique=c['technique'], level='other', level_note=c['note']))
    else:
        na.append(dict(property=i, reason=T['na'].get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Every check analyses /repo as it is on disk; nothing of /repo is executed. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
