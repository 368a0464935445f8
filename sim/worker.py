"""A worker process: imports everything once, then forks a child for every incarnation of every run."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
from . import seams  # noqa: E402
seams.install()

import json  # noqa: E402
import random  # noqa: E402


def warm():
    import warnings
    warnings.simplefilter('ignore')
    import inspect, linecache, ast, tokenize, traceback, logging.handlers, pickle, tempfile, shutil, hashlib  # noqa
    import pyfileconf
    import pyfileconf.main
    here = os.path.realpath(os.path.dirname(pyfileconf.__file__))
    if not here.startswith(os.path.realpath(REPO) + '/'):
        raise SystemExit(f'pyfileconf imported from {here}, not from {REPO}')
    import black, pandas  # noqa
    from . import world
    world.make_simrt()
    # pyfileconf searches every loaded module for the objects it scaffolds. Take the big libraries out of the way
    # (an import of one of them gives the loaded module again).
    for name in list(sys.modules):
        if name.split('.')[0] in ('pandas', 'numpy', 'dateutil', 'pytz', 'zoneinfo'):
            _HIDDEN[name] = sys.modules.pop(name)
    sys.meta_path.insert(0, _Hidden())


class _Hidden:
    """gives the modules which were loaded before the simulation"""

    def find_spec(self, name, path=None, target=None):
        if name in _HIDDEN:
            from importlib.machinery import ModuleSpec
            return ModuleSpec(name, self, origin=getattr(_HIDDEN[name], '__file__', None),
                              is_package=hasattr(_HIDDEN[name], '__path__'))

    def create_module(self, spec):
        self.was = getattr(_HIDDEN[spec.name], '__spec__', None)
        return _HIDDEN[spec.name]

    def exec_module(self, module):
        if self.was is not None:
            module.__spec__ = self.was


def load_prop(pid):
    import importlib
    return importlib.import_module(f'sim.props.{pid.lower()}')


def gen_case(prop, pid, seed, i, tier):
    rng = random.Random(f'{pid}/{seed}/{i}')
    case = json.loads(json.dumps(prop.gen(rng, tier)))
    case['property'] = pid
    case['seed'] = f'{pid}/{seed}/{i}'
    case['hashseed'] = HASHSEEDS[i % len(HASHSEEDS)]
    return case


_HIDDEN = {}
HASHSEEDS = [0, 1, 2, 3, 5, 8, 13, 21]


def main():
    # keep the protocol channel for ourselves, the code under test prints into nothing
    proto = os.fdopen(os.dup(1), 'w')
    devnull = os.open('/dev/null', os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = os.fdopen(1, 'w', closefd=False)
    sys.stdout.flush()
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    warm()
    from .world import run_case
    import gc
    gc.collect()
    gc.freeze()
    base = sys.argv[1]
    os.makedirs(base, exist_ok=True)

    def send(d):
        proto.write(json.dumps(d) + '\n')
        proto.flush()

    send({'ready': True})
    for line in sys.stdin:
        msg = json.loads(line)
        if msg['cmd'] == 'case':
            prop = load_prop(msg['prop'])
            r = run_case(prop, msg['case'], base, timeout=msg.get('timeout', 60))
            send({'result': r})
        elif msg['cmd'] == 'range':
            prop = load_prop(msg['prop'])
            for i in range(msg['start'], msg['stop'], msg['step']):
                if seams.real['time']() > msg['deadline']:
                    break
                case = gen_case(prop, msg['prop'], msg['seed'], i, msg['tier'])
                r = run_case(prop, case, base, timeout=msg.get('timeout', 60))
                out = {'i': i, 'status': r['status'], 'violation': r['violation'], 'trace_hash': r['trace_hash'],
                       'stats': r['stats'], 'states': r['states'], 'simtime': r['simtime'],
                       'ops': len(case.get('ops', ()))}
                if r['status'] != 'ok' or i < 4:
                    out['case'] = case
                    out['trace'] = r['trace']
                send(out)
                if r['status'] != 'ok' and not msg.get('keep_going'):
                    break
            send({'done': True})
        elif msg['cmd'] == 'quit':
            break


if __name__ == '__main__':
    main()
