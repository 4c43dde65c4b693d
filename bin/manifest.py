#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after a change of the claims below."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = {
 'C01': 'runtime monitor of termination over fuzzed inputs and flags (overflow checks and debug assertions on)',
 'C02': 'reference-model monitor over generated specs', 'C03': 'reference-model monitor over generated specs',
 'C04': 'reference-model monitor over generated specs', 'C05': 'reference-model monitor over generated specs',
 'C06': 'independent lexer/parser as oracle, formatter fixed-point monitor over generated specs',
 'C07': 'reference-model monitor over specs with one injected defect',
 'C08': 'relational monitor over renderings of one tree', 'C09': 'location oracle over specs with one injected defect',
 'C10': 'relational monitor: combined trees against each tree alone',
 'C11': 'reference-model monitor over edit histories of Solidity files',
 'C12': 'silence monitor over structure-preserving edit histories',
 'C13': 'convergence monitor over edit histories and repeated runs',
 'C14': 'conservation monitor over tokens and comments of user code',
 'C15': 'relational monitor over flag combinations',
 'C16': 'file-system monitor: syscall event log and snapshots over command histories',
 'C17': 'relational monitor: batches against single runs',
 'C18': 'relational monitor over repeated runs in varied environments',
 'C19': 'reference-model monitor over library trees, spans in probes',
 'C20': 'fault injection at every I/O event, with a monitor of reports and file contents',
}
CLAIMED = open('/verif/bin/claimed.txt').read().split()
NOTE = {}
m = {
 'version': 1,
 'setup_cmd': 'bash setup.sh',
 'hooks': {'guard': 'none', 'enable': 'no hooks: the monitors observe the unmodified binary and library', 'source_commits': []},
 'checks': [], 'not_applicable': [],
 'notes': 'See DESIGN.md. Every check rebuilds the tool from /repo when its sources changed and is seeded by VERIF_SEED.',
}
for p in props:
    i = p['id']
    if i in CLAIMED:
        lvl = 'fault_enumeration' if i == 'C20' else 'exploration'
        m['checks'].append({
            'property': i, 'quick_cmd': f'bash check.sh {i}', 'thorough_cmd': f'bash check.sh {i} thorough',
            'technique': TECH[i], 'level': lvl,
            'level_note': 'Holds on the executions observed (counted in the evidence); trusts the oracle described in DESIGN.md and the generators\' reach.',
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': 'its check is still being built'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('/verif/MANIFEST.json', 'a').write('\n')
