#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
DOM = ('TLA+ specification (Dom.tla) model checked with TLC; every transition replayed into the crate, '
       'random histories of the crate validated against the specification by TLC')
TRUST = ' Trusted: rustc/std, TLC, the projection in harness/src/proj.rs; the value types and readers of svgtypes, roxmltree and simplecss (dependencies).'
T = {}
for i in range(1, 12):
    T['D%02d' % i] = (DOM, 'All states up to the stated scope (3-4 nodes, complete alphabet of the calls concerned) are checked on the specification and each transition is replayed in the real library; longer histories (hundreds, ~45 calls each) are sampled and validated event by event. Not a proof beyond those bounds.')
T['D02'] = ('TLA+ specification (Dom.tla) with all traversals and two-ended interleavings as operators; answers replayed and validated with TLC', T['D02'][1])
T['D11'] = ('histories of the crate ending in drops, checked by TLC against the life cycle in Dom.tla; a counting allocator observes the release', 'Sampled histories; the specification says when everything must be gone, the allocator says whether it is.')
W = 'TLA+ writer machine (Writer.tla) computes the exact output of each state; histories and documents validated against it with TLC'
T['W01'] = (W, 'Sampled trees and histories compared character by character with the output the specification derives.')
T['W05'] = ('TLA+ Writer.tla computes Debug/Display of nodes and attributes; histories validated with TLC', T['W01'][1])
exec(open(os.path.join(V, 'tools', 'manifest_extra.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'One TLA+ specification in spec/, bound to the crate by harness/ (a crate with a path dependency on /repo) and driven by check.py. No hooks in /repo are needed.'}
for i in ids:
    if i in T:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'technique': T[i][0], 'level': 'model_checking', 'level_note': T[i][1] + TRUST})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), len(m['not_applicable']))
