#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the stages."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import stages
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in stages.CHECKS:
        mods = sorted({s['module'] for s in stages.CHECKS[i] if s['kind'] == 'conf'})
        mcs = sorted({s['module'] for s in stages.CHECKS[i] if s['kind'] == 'mc'})
        t = 'TLA+ specification; TLC judges traces recorded from the real code (%s)' % ', '.join(mods)
        if mcs:
            t += '; exhaustive TLC runs of %s' % ', '.join(mcs)
        checks.append(dict(property=i, quick_cmd='python3 harness/check.py %s quick' % i, thorough_cmd='python3 harness/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='model_checking',
                           level_note=stages.NOTES.get(i, 'Every recorded event is judged by TLC against the contract of the specification; the histories are generated, so the bound is their number and size (see evidence).')))
    else:
        na.append(dict(property=i, reason=stages.NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 harness/check.py --setup', hooks=dict(guard='STARWORLDS_VERIF', enable='no hooks are needed: the harness drives the public interface', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='python3 harness/check.py --replay replays/<file> prints the failing trace again. Known findings and repaired defects: known_findings.txt.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
