"""python3 -m sim.check C01   (VERIF_SEED, VERIF_TIER)"""
import hashlib
import json
import os
import sys
import time

from .pool import Pool, HERE
from .minimise import minimise

HASHSEEDS = [0, 1, 2, 3, 5, 8, 13, 21]


def load_meta(pid):
    """constants of a property module without importing the code under test"""
    import importlib
    return importlib.import_module(f'sim.props.{pid.lower()}')


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        return json.load(f)['findings']


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = load_meta(pid)
    n = int(os.environ.get('VERIF_RUNS') or prop.RUNS[tier])
    wall = float(os.environ.get('VERIF_WALL') or prop.WALL[tier])
    t0 = time.time()
    findings = [f for f in known_findings() if f['property'] == pid]

    stats, states, traces, nontrivial, samples = {}, set(), set(), set(), []
    bad, seen_known, harness = [], {}, []
    runs = 0
    simtime = 0.0
    first = {}
    checked = differing = 0
    with Pool(HASHSEEDS) as pool:
        deadline = t0 + wall
        starts = {h: k for k, h in enumerate(HASHSEEDS)}
        msgs = [{'cmd': 'range', 'prop': pid, 'seed': seed, 'tier': tier, 'start': k, 'stop': n,
                 'step': len(HASHSEEDS), 'deadline': deadline, 'keep_going': bool(findings),
                 'timeout': getattr(prop, 'TIMEOUT', 60)} for k in range(len(HASHSEEDS))]
        for w, r in pool.stream(msgs):
            if r.get('done'):
                if r.get('error'):
                    harness.append({'i': -1, 'violation': {'kind': 'worker', 'detail': r['error']}})
                continue
            runs += 1
            simtime += r['simtime']
            for k, v in r['stats'].items():
                stats[k] = stats.get(k, 0) + v
            states.update(r['states'])
            traces.add(r['trace_hash'])
            if r['stats'].get('nontrivial'):
                nontrivial.add(r['trace_hash'])
            if r['status'] == 'ok':
                if 'case' in r and r['i'] < 4:
                    first[r['i']] = r
                    if len(samples) < 2:
                        samples.append({'case': r['case'], 'trace': r['trace'][:60]})
            elif r['status'] == 'violation':
                f = match(findings, r['violation'])
                if f is not None:
                    seen_known[f['id']] = f
                else:
                    bad.append(r)
            else:
                harness.append(r)
        # the same seeds again, in fresh processes: must be the same executions
        violation_line = None
        if not bad and not harness:
            for i in sorted(first):
                w = pool.start(HASHSEEDS[i % len(HASHSEEDS)])
                pool.workers.append(w)
                again = w.run(pid, first[i]['case'])
                w.close()
                checked += 1
                if again['trace_hash'] != first[i]['trace_hash']:
                    differing += 1
        explore_s = time.time() - t0
        unconfirmed = []
        for r in sorted(bad, key=lambda r: r['i'])[:4]:
            kind = r['violation']['kind']
            w = pool.start(r['case']['hashseed'])
            pool.workers.append(w)
            again = w.run(pid, r['case'], timeout=getattr(prop, 'TIMEOUT', 60))
            if again['status'] != 'violation' or again['violation']['kind'] != kind:
                unconfirmed.append({'i': r['i'], 'first': r['violation'], 'again': again['violation']})
                w.close()
                continue
            budget = 20 if kind == 'no-progress' else float(os.environ.get('VERIF_MIN_S', 60))
            case, tries = minimise(r['case'], kind, lambda c: w.run(pid, c, timeout=20), prop, budget_s=budget)
            final = w.run(pid, case)
            if final['status'] != 'violation' or final['violation']['kind'] != kind:
                case = r['case']
                final = again
            path = write_replay(pid, case, final, r, tries)
            print(f'property {pid}: {kind}', flush=True)
            print(final['violation']['detail'][:3000])
            print('schedule and faults of the minimised run:')
            for line in final['trace'][-40:]:
                print('   ', line[:300])
            print(f'minimised from {len(r["case"].get("ops", ()))} to {len(case.get("ops", ()))} operations '
                  f'in {tries} runs; replay with: python3 -m sim.replay {path}')
            violation_line = f'VIOLATION property={pid} replay={path}'
            w.close()
            break
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    ops = {k[3:]: v for k, v in sorted(stats.items()) if k.startswith('op:')}
    wall_s = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.RULE,
            'samples': samples,
            'runs_requested': n,
            'runs_per_hour': round(runs / explore_s * 3600) if explore_s else 0,
            'seeds_per_hour': round(runs / explore_s * 3600) if explore_s else 0,
            'simulated_seconds': round(simtime, 1),
            'faults_injected': faults,
            'operations': ops,
            'checks': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('check:')},
            'distinct_executions': len(traces),
            'distinct_states': len(states),
            'state_measure': prop.STATES,
            'determinism': {'runs_repeated_in_fresh_processes': checked, 'differing': differing},
            'real_components': 'all of pyfileconf, pluggy, black, astor, logging, importlib and the file system below '
                               'the scratch directory',
            'stubbed_components': prop.STUBS if hasattr(prop, 'STUBS') else
            'user code (generated functions, classes, config files, plugins); clock; faults at the open/os/importer '
            'seam; process death by ending a forked process',
            'unconfirmed': unconfirmed,
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall_s, 1),
        'violations': 1 if violation_line else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for f in seen_known.values():
        print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    if violation_line:
        print(violation_line)
        return 1
    if harness:
        print('harness error:', json.dumps(harness[0].get('violation'))[:4000])
        if 'case' in harness[0]:
            print(json.dumps(harness[0]['case'])[:2000])
        return 2
    if runs == 0:
        print('no runs were executed')
        return 2
    print(f'{pid}: {runs} simulated runs ({len(traces)} distinct, {len(states)} distinct states, '
          f'{sum(faults.values())} faults injected) in {wall_s:.1f} s; property held'
          + (f'; {len(unconfirmed)} unconfirmed' if unconfirmed else '')
          + (f'; {differing} of {checked} repeated runs differ' if differing else ''))
    return 0


def match(findings, violation):
    for f in findings:
        if f['kind'] == violation['kind'] and all(s in violation['detail'] for s in f['detail_contains']):
            return f
    return None


def write_replay(pid, case, result, orig, tries):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(HERE, 'replays', f'{pid}-{h}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'case': case, 'violation': result['violation'],
                   'trace': result['trace'], 'trace_hash': result['trace_hash'],
                   'seed': orig['case'].get('seed'), 'minimising_runs': tries}, f, indent=1)
    return path


if __name__ == '__main__':
    sys.exit(main())
