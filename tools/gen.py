"""Writes properties.jsonl and MANIFEST.json from tools/specs.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.dirname(here)]
from specs import SPECS
from vlib.registry import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for s in SPECS:
        assert len(s['doc']['title']) <= 80, s['doc']['id']
        f.write(json.dumps(s['doc']) + '\n')
checks = [dict(property=s['doc']['id'], quick_cmd=f"./run.sh {s['doc']['id']} --tier quick", thorough_cmd=f"./run.sh {s['doc']['id']} --tier thorough",
               technique=s['technique'], level=PROPS[s['doc']['id']]['level'], level_note=s['note']) for s in SPECS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[]), open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
