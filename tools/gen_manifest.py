#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist (run after adding a check)."""
import json, os, importlib, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {
 'C02': 'effect analysis over the resolved call graph (MIR)',
 'C01': 'call-graph effect analysis + gated dataflow over MIR',
 'C39': 'type-checked query of every function mentioned (closed classification) + gated dataflow over MIR for opened files',
 'C40': 'type-level query (marker traits, freeze, receiver types) answered by the compiler',
 'C33': 'type-checked query of unsafe operations + dominance (typestate) over MIR',
}
NA = {
 'C34': 'the read-back equality of a whole persist/open cycle composes CRC32, UTF-16 coding and loops over the same device content; static analysis in reach decides its parts (C05-C08, C11, C12, C20, C22) but not the end-to-end equality, which quantifies over runtime content of two executions',
 'C35': 'a statement about the random generator at run time; nothing in the source bounds collisions',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        doc = re.match(r'"""(.*?)"""', open(f).read(), re.S).group(1)
        checks.append({
            'property': i,
            'quick_cmd': 'bin/check %s --tier quick' % i,
            'thorough_cmd': 'bin/check %s --tier thorough' % i,
            'technique': TECH.get(i, 'gated dataflow (value numbering) over type-checked MIR with an integer-polyhedra domain'),
            'level': 'other',
            'level_note': 'Static analysis of the current source: ' + ' '.join(doc.split()) + ' Trusted: rustc\'s MIR, the models of std/crc/uuid/simple_bytes calls in engine/.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m engine.build', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
