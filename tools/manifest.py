"""Writes MANIFEST.json and properties.jsonl: every property with a check in checks/ is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for p in props.P:
    pid = p['id']
    f = os.path.join(V, 'checks', pid.lower() + '.py')
    if os.path.exists(f):
        doc = open(f).read()
        traces = sorted(set(__import__('re').findall(r"(?:validate|mc|simulate)\(\s*'(\w+)'", doc)))
        checks.append({'property': pid, 'quick_cmd': './check ' + pid,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check ' + pid,
                       'technique': 'TLA+ specification (%s) model-checked with TLC; its behaviours and further inputs replayed through the real API and the recorded traces validated by TLC against the specification' % ', '.join(traces),
                       'level': 'model_checking',
                       'level_note': 'Exhaustive on the specification within small constants; on the code, every outcome observed in the replayed behaviours/inputs of the run is decided by the specification (bounded and sampled over inputs, not a proof). Trusts TLC, the JSON projection in the driver and the construction of inputs.'})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the library is sequential and every event is the return of a public call.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in props.P:
        f.write(json.dumps(d) + '\n')
print(len(checks), 'claimed,', len(na), 'not')
