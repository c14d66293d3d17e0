"""Writes MANIFEST.json: one check per checks/cNN.py, every other property under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'C05': 'happens-before style race monitor on every array access of parallel loops (shadow memory per iteration) plus schedule perturbation with outcome comparison',
 'C06': 'bounds-checking and uninitialised-memory sanitizer (bounds-checked execution of the kernels, poisoned allocations) under boundary and stress workloads',
 'C11': 'offline statistical monitor over recorded draws (six-sigma test of counts)',
 'C12': 'trace comparison of repeated executions under perturbed schedules, thread counts and generator states',
 'C13': 'history monitor: refitted estimator compared with a fresh one after random fit sequences',
 'C33': 'end-to-end runs of the documented programs with recorded data flow, injected crashes and delays, judged by an independent evaluation',
 'C34': 'hook on every parallel region recording the thread count in force, per calling thread and concurrent job',
 'C35': 'controlled thread scheduler: operations paused at chosen lines while others run, outcomes compared with sequential ones',
 'C36': 'lifetime monitor: weak references to every input and result, array allocations traced, sizes of stored models over histories of fits and uses',
 'C37': 'step monitor: lines and jumps executed in the code of the repository are counted while one size grows, compared with proportional growth',
 'C28': 'configuration stress: every compiled function monitored under all option combinations, outcomes compared',
}
DEF = 'runtime monitoring: an independent oracle judges recorded inputs and outputs of the real code under randomised hostile workloads'
NOTE = ('the real code of /repo is executed (compiled-function decorators replaced by a monitoring stand-in, since '
        'the compiler itself is not installed here) and every observation is judged by an independent oracle; holds '
        'for the executions observed, not beyond')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, DEF), level='exploration',
                           level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
