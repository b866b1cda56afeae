"""Writes /verif/MANIFEST.json from fogsim.props.meta."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from fogsim.props.meta import META

PURE = 'Pure function of its arguments: no schedule, clock, I/O, randomness, fault or interleaving for a simulator to decide; sampling inputs would be plain property testing, another technique.'
NA = {
    'C21': PURE,
    'C22': PURE,
    'C23': PURE + ' (Their stability across processes and threads is decided under C09 and C10.)',
    'C24': PURE + ' (Its stability across processes is decided under C09.)',
    'C25': PURE,
    'C26': PURE + ' (Its stability across processes is decided under C09.)',
    'C27': PURE + ' (SimHash uses fixed md5/sha hashing, no draws; its stability across processes and threads is decided under C09 and C10.)',
    'C28': 'fog/clustering/laesa.py is an unexported draft that its own header marks as unfinished; sequential and pure, nothing for a simulator to decide.',
}
TECH = {
    'C01': 'deterministic simulation of worker-pool schedules vs sequential run and reference model',
    'C02': 'deterministic simulation of worker-pool schedules vs sequential run and reference model',
    'C03': 'deterministic simulation of pivot draws and worker-pool schedules vs brute-force reference',
    'C04': 'deterministic simulation with injected callback, input and worker failures, then retry',
    'C05': 'deterministic simulation of pool life cycle with faults at every stage',
    'C06': 'deterministic simulation of input delivery vs reference model',
    'C07': 'deterministic simulation of ambient randomness, entropy and clock',
    'C08': 'deterministic simulation with adversarial random outcomes and step budgets',
    'C09': 'deterministic simulation of process restarts under different hash seeds',
    'C10': 'deterministic simulation of thread interleavings at instruction granularity',
    'C11': 'deterministic simulation of streams with fault injection vs reference model',
    'C12': 'deterministic simulation of output devices with write, flush and close failures',
    'C13': 'deterministic simulation of streams and clock vs reference model',
    'C14': 'deterministic simulation of the C allocator with failing allocations vs textbook definition',
    'C15': 'deterministic simulation of interleaved iterator consumption',
    'C16': 'deterministic simulation of schedules and random outcomes with invariant checks on each cluster',
    'C17': 'deterministic simulation of the draws of hash functions: exact laws under adversarial draws, Hoeffding-bounded frequencies over simulated generators',
    'C18': 'deterministic simulation of the random draws: mean recall over simulated executions against a floor, exactness under adversarial draws when every item is a neighbour',
}
checks = []
for p, m in sorted(META.items()):
    checks.append({
        'property': p,
        'quick_cmd': './check.sh %s' % p,
        'thorough_cmd': './check.sh %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': TECH[p],
        'level': m['level'],
        'level_note': 'Seeded search over %d (quick) / %d (thorough) simulated runs of the real code, each an exactly replayable seed. Evidence, not proof. Trusts: %s.' % (m['quick'], m['thorough'], '; '.join(m['assumptions'])),
    })
claimed = {c['property'] for c in checks}
na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
for line in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(line)['id']
    if i not in claimed and i not in NA:
        na.append({'property': i, 'reason': 'Check under construction.'})
man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': sorted(na, key=lambda x: x['property']),
    'notes': 'No hooks were needed in /repo: every seam (multiprocessing, random, numpy, clocks, open/stdio, threads, allocator) is taken from outside. Commits in /repo are repairs ("fix:") listed in known_findings.txt.',
}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), len(na))
