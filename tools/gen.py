"""writes properties.jsonl and MANIFEST.json from vmon/catalog.py"""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vmon.catalog import PROPS  # noqa

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for k, p in sorted(PROPS.items()):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=k, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['domain']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'],
                                                                      hook_needed=None))) + '\n')
base = 'held on the executions generated (seeded workloads); not a proof. '
man = dict(version=1, setup_cmd='bash -n run.sh && /opt/venv/bin/python -c "import numpy, scipy, matplotlib"',
           checks=[dict(property=k, quick_cmd=f'VERIF_TIER=quick bash run.sh {k}', thorough_cmd=f'VERIF_TIER=thorough bash run.sh {k}',
                        evidence_file=f'evidence/{k}.json', technique=p['technique'], level='exploration', level_note=base + p['note'])
                   for k, p in sorted(PROPS.items())],
           not_applicable=[], notes='No hooks in /repo: everything is observed at the public API, the command line and the files written.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(PROPS), 'properties', [len(p['statement'].split('. ')) for p in PROPS.values()])
