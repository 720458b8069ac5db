#!/usr/bin/env python3
"""Write MANIFEST.json from the list of built checks."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
LAW = 'TLC-checked TLA+ laws (identities in a finite field) exported as the oracle; TLC-enumerated configurations replayed on the code; recorded trace checked by a TLA+ trace specification'
STATE = 'TLA+ state machine model-checked by TLC; its behaviours replayed on the code; recorded trace checked by a TLA+ trace specification'
NOTE = {}
exec((V / 'tools' / 'levels.py').read_text())
props = [json.loads(l) for l in open(V / 'properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if (V / 'harness' / ('p_%s.py' % i.lower())).exists() and i in NOTE:
        tech, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='specification not written yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: the checks drive the public interface of /repo as it is. The only build artefacts are the compiled extensions, rebuilt through /opt/vp/build.sh when a compiled source differs from the last build.'),
          open(V / 'MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
