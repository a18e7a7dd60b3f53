"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = dict(json.load(open(V + '/tools/not_applicable.json')))
m = dict(version=1, setup_cmd='python3 run.py setup',
         checks=[dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'],
                      technique=CHECKS[p['id']].get('technique', 'runtime monitoring: sanitizer-instrumented real code under generated workloads, judged by an independent reference model'),
                      level=CHECKS[p['id']].get('level', 'exploration'),
                      level_note=CHECKS[p['id']].get('note', 'held on every execution counted in the evidence file; no claim beyond the inputs drawn. Trusts the reference model in harness/, the compiler and the sanitizers.'))
                 for p in props if p['id'] in CHECKS],
         not_applicable=[dict(property=p['id'], reason=na.get(p['id'], 'no check yet')) for p in props if p['id'] not in CHECKS])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
