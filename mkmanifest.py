"""writes MANIFEST.json (run by hand after changing the claims)"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
BOUNDED = 'runtime contracts (bounded stand-in): postconditions evaluated on the real functions for generated inputs'
CLAIMS = {}
p = os.path.join(HERE, 'claims.json')
if os.path.exists(p):
    CLAIMS = json.load(open(p))


def items(prop):
    """names of the contracts of a property"""
    code = ('import pyvc.prove as P, importlib, json; importlib.import_module("contracts.%s"); print(json.dumps([i["name"] for i in P.ITEMS]))' % prop.lower())
    return json.loads(subprocess.run(['python3-vt', '-B', '-c', code], cwd=HERE, capture_output=True, text=True, check=True).stdout)


checks = []
for q in props:
    c = CLAIMS.get(q['id'], {})
    checks.append(
        dict(
            property=q['id'],
            quick_cmd='python3 check.py ' + q['id'],
            thorough_cmd='python3 check.py ' + q['id'],
            evidence_file='evidence/%s.json' % q['id'],
            technique=c.get('technique', BOUNDED),
            level=c.get('level', 'exploration'),
            level_note=c.get('level_note', 'bounded: generated inputs only; nothing is counted as proved'),
            **({'theorems': items(q['id'])} if c.get('level') == 'proof' else {}),
        )
    )
json.dump(
    dict(
        version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
        notes='See DESIGN.md. Check entry point: check.py; verifier: pyvc/ with contracts/; runtime contracts and replay: battery/.',
    ),
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1,
)
