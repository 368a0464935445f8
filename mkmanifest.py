"""writes MANIFEST.json from the property modules which exist"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
TECH = {
    'C01': 'deterministic simulation: crash at seeded I/O steps, restart, comparison with a crash-free twin',
    'C02': 'deterministic simulation: disk errors at seeded I/O steps, retry, comparison with an undisturbed twin',
    'C03': 'deterministic simulation: seeded operation histories against an executable reference model',
    'C04': 'deterministic simulation: seeded histories over dependency graphs with salted refresh order against a re-evaluating reference model',
    'C05': 'deterministic simulation: seeded faults in nested runs and loads against a shadow stack',
    'C06': 'deterministic simulation: seeded faults in captured runs, prints against recorded log',
    'C07': 'deterministic simulation: option histories with simulated clock and disk errors against a model of the log files',
    'C08': 'deterministic simulation: seeded user-code faults in multi-item runs against a reference model',
    'C09': 'deterministic simulation: seeded interleavings of iterations with faults against a reference model',
    'C10': 'deterministic simulation: operation histories with recording and failing plugins against a change model',
    'C11': 'deterministic simulation: interleaved lookups, failed and partial, against isolated lookups',
    'C12': 'deterministic simulation: edit/load histories with salted listing and hash order against text models',
    'C13': 'deterministic simulation: creation histories with reloads and restarts against a declared project',
    'C14': 'deterministic simulation: edits under an adversarial simulated clock with bytecode caches on',
    'C15': 'deterministic simulation: manager life-cycle histories with seeded collection and failures',
    'C16': 'deterministic simulation: break/repair histories of user code with errors and interrupts',
}
NOTE = ('Seeded search over histories, schedules and faults; the real pyfileconf runs, user code and clock are '
        'simulated. Not exhaustive: it shows the property on the runs explored (see the evidence file).')
checks = []
na = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if pid.startswith('N'):
        na.append({'property': pid, 'reason': {
            'N01': 'A pure function of one string: no schedule, time, I/O, randomness or fault for it to depend on, so '
                   'simulation has nothing to control.',
            'N02': 'A pure function of one signature: no schedule, time, I/O, randomness or fault for it to depend on, '
                   'so simulation has nothing to control.'}[pid]})
    elif os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': f'python3 -m sim.check {pid}',
                       'thorough_cmd': f'VERIF_TIER=thorough python3 -m sim.check {pid}',
                       'technique': TECH[pid], 'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': pid, 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 -m sim.selftest' if os.path.exists(os.path.join(HERE, 'sim', 'selftest.py'))
     else 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
