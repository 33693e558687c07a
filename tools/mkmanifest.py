"""Writes MANIFEST.json from the list of checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
import main

TECH = {
    'C01': 'abstract interpretation of MIR: reachability of panics',
    'C02': 'abstract interpretation of MIR: provenance of allocation sizes and loop bounds',
    'C03': 'call-graph and type-containment cycle analysis',
    'C24': 'effect analysis over the call graph; HIR lint for global state',
    'C10': 'abstract interpretation of MIR with bit-level value tracking',
    'C06': 'abstract interpretation of MIR with ghost counters and linear loop invariants',
    'C07': 'abstract interpretation of MIR; product of the control automaton of the section loop with the grammar',
    'C11': 'abstract interpretation of MIR with bit-level value tracking; HIR lint for unsafe code',
    'C25': 'path-sensitive error-flow analysis over MIR',
    'C26': 'abstract interpretation of MIR: which parts a comparison or printing routine depends on',
    'C13': 'path-sensitive error-flow analysis over MIR',
}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p in main.CHECKS:
        checks.append({
            'property': p,
            'quick_cmd': 'python3 analysis/main.py ' + p,
            'technique': getattr(main, 'TECH', {}).get(p) or TECH.get(p, 'path-sensitive abstract interpretation of MIR against a specification table'),
            'level': 'other',
            'level_note': 'Static analysis of all paths: sound over-approximation for the analysed entry points under the assumptions listed in the evidence; obligations it could not decide are listed there as undecided.',
        })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 analysis/build.py',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the checks analyse /repo as it is', 'source_commits': []},
    'checks': checks,
    'not_applicable': [],
    'notes': 'Commits marked "fix:" in /repo repair defects found by the analysis; see KNOWN_FINDINGS.txt and DESIGN.md.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
