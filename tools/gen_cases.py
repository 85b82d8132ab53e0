"""writes CASES.md: every case with its stated bounds"""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import api
import json
with open(os.path.join(ROOT, 'CASES.md'), 'w') as f:
    f.write('# Cases and bounds\n\nGenerated by tools/gen_cases.py; (t) marks cases run by the thorough tier only.\n')
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        cs = api.load(p['id'])
        f.write('\n## %s %s\n\n' % (p['id'], p['title']))
        for c in cs:
            f.write('- %s%s: %s\n' % ('' if c.tier == 'quick' else '(t) ', c.name, c.bounds))
