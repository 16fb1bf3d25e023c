#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py %s' % i,
            technique=P.get('technique', 'TLA+ specification checked with TLC; TLC-generated plans replayed into the real code and recorded traces validated against the specification'),
            level='model_checking', level_note=P.get('note', 'Every recorded call is decided by the TLA+ action of the routine (full memory before/after, frame included). Bounded: inputs are those enumerated/sampled by the plan. Trusts TLC, the harness recording, Givaro scalar arithmetic used to build inputs; Java accelerators are cross-checked against the plain TLA+ definitions on every run.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=na,
  hooks=dict(guard='__FFLASFFPACK_SEQPARTHRESHOLD, PTRSM_HYBRID_THRESHOLD', enable='C14 builds define them to small values (-D) so that the parallel splits are taken on small matrices; undefined, the values are the original 220 and 256', source_commits=['c04e314']),
  notes='Otherwise no hooks in /repo: the library is driven and observed through its public API.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
