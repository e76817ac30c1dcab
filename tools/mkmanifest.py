"""Writes MANIFEST.json: one entry per check that exists (its module says the rest)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'N01': 'a pure function of one string: no schedule, clock, I/O or fault can change its outcome, so there is '
           'nothing to simulate; where transformers matter for a claimed property they are in its workload',
    'N02': 'a pure function of document and type; scheduling and faults cannot change which attributes a document '
           'has (the options of concurrent and parallel strict loads are checked under C01 and C03)',
    'N03': 'a pure function of the object and the options; nothing nondeterministic takes part (that options reach '
           'every element and never leak between calls is checked under C01, C03 and C05)',
    'N04': 'decided once, synchronously, when a definition is evaluated; no schedule, time, I/O or fault takes part',
}
TECH = {
    'C01': 'deterministic simulation: seeded scheduler of worker threads and processes, differential oracle (tasks=1 in a fresh process) and reference model',
    'C02': 'deterministic simulation with fault injection: failing elements, killed workers, broken channels, failed starts',
    'C03': 'deterministic simulation: seeded preemption at every line, solo-run oracle and reference model',
    'C04': 'deterministic simulation: seeded preemption of registrations and lookups, linearizability check of the recorded history against a registry model',
    'C05': 'deterministic simulation: fork-tree histories, sequential and concurrent, against a model of snapshots',
    'C06': 'deterministic simulation with fault injection: asynchronous exceptions at any instruction, later calls compared with a fresh process',
    'C07': 'deterministic simulation with fault injection: snapshots of shared inputs as an invariant while calls are preempted, interrupted and fail',
    'C08': 'deterministic simulation with fault injection: the n-th callback fails, containment compared with a reference model',
    'C09': 'deterministic simulation with fault injection: simulated clock with jumps and changes of the local time zone, own calendar arithmetic as oracle',
    'C10': 'deterministic simulation: virtual-time event loop with seeded order, cancellation and timeouts',
    'C11': 'deterministic simulation with fault injection: writer and reader processes that restart with other hash seeds, clocks, zones and histories',
    'C12': 'deterministic simulation with fault injection: storage faults on stored documents, json and reference model as oracle',
    'C13': 'deterministic simulation: seeded preemption of validated loads, model of the validators as oracle',
    'C14': 'deterministic simulation: counted callbacks under seeded schedules against the reference model',
    'C15': 'deterministic simulation with fault injection: restarts, failing imports and concurrent announcements around verbose documents',
    'C16': 'deterministic simulation with fault injection: interleaved, failing and interrupted calls, then counts of references to everything they handled',
}
NOTE = {
    'default': 'Seeded random exploration of schedules, faults and workloads by real executions of the unmodified library; '
               'a clean run is evidence for what was explored (see the evidence file), not proof. Trusts CPython, typish, '
               'the simulator in sim/ and the reference model in sim/universe.py.'}


def const(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)


checks, na = [], [{'property': k, 'reason': v} for k, v in NA.items()]
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        continue
    path = os.path.join(HERE, 'checks', p.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p, 'reason': 'its check is not built yet (work in progress)'})
        continue
    checks.append({'property': p, 'quick_cmd': f'./check {p} --tier quick', 'thorough_cmd': f'./check {p} --tier thorough',
                   'evidence_file': f'evidence/{p}.json', 'technique': TECH[p], 'level': const(path, 'LEVEL'),
                   'level_note': NOTE.get(p, NOTE['default'])})
json.dump({'version': 1, 'setup_cmd': 'bash sim/build_clock.sh', 'checks': checks,
           'not_applicable': sorted(na, key=lambda x: x['property']),
           'notes': 'No hooks in /repo: every seam is put in place from outside (sys.monitoring for preemption, '
                    'threading and multiprocessing replaced before the library is imported, a preloaded system clock).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
