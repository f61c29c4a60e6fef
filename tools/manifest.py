import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, 'vf', 'props', p.lower() + '.py')):
        tech, level, note = NOTES[p]
        checks.append({'property': p, 'quick_cmd': 'bin/check %s --tier quick' % p,
                       'thorough_cmd': 'bin/check %s --tier thorough' % p,
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specifications in specs/, checked with TLC; see DESIGN.md'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
