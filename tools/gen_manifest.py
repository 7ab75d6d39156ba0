"""writes /verif/MANIFEST.json from bin/registry.py"""
import json, sys
sys.path.insert(0, '/verif/bin')
import registry
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = getattr(registry, 'NA', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.REG:
        R = registry.REG[i]
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check %s --tier quick' % i, 'thorough_cmd': 'python3 bin/check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': R.get('technique', 'path-complete symbolic execution of the LLVM IR compiled from /repo, every branch and assertion decided by SMT (Z3) over all inputs within bounds, counterexamples replayed natively'),
            'level': R['level'], 'level_note': R.get('note', '; '.join(e['entry'] + ': ' + e['bound'] for e in R['entries']))[:1500]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no sound check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
