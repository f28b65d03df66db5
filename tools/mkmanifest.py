""" Write MANIFEST.json: every property with a module in props/ is claimed """
import json, os
here = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
NOTE = {}
try:
    from notes import NOTE
except ImportError:
    pass
checks, na = [], []
for line in open (os.path.join (here, 'properties.jsonl')):
    p = json.loads (line)
    i = p['id']
    if os.path.exists (os.path.join (here, 'props', i.lower () + '.py')):
        checks.append (dict (property=i, quick_cmd=f'bash /verif/check.sh {i} quick', thorough_cmd=f'bash /verif/check.sh {i} thorough',
            technique=NOTE.get (i, ('property-based testing: generated cases against a reference model', ''))[0],
            level='exploration', level_note=NOTE.get (i, ('', 'generated-input search; bounds and counts are in the evidence file'))[1]))
    else:
        na.append (dict (property=i, reason='check not built yet'))
m = dict (version=1, setup_cmd='bash /verif/setup.sh', checks=checks, not_applicable=na,
    notes='See DESIGN.md. Replay a saved case: check.sh <property> --replay <file>. Fixed defects: known-findings.txt.')
json.dump (m, open (os.path.join (here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
