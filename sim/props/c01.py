"""C01: a crash never damages project files"""
from ..seams import DISK, CLOCK
from ..world import Violation
from . import proj as P
from . import disk

RUNS = {'quick': 700, 'thorough': 40000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is a generated project (0-2 levels of sections, functions, classes, specific class entries), 3-14 '
        'operations (construct, load, reload, create entry, user edits of config, section and dict files, restart) and '
        'crashes at seeded I/O steps (before or after a step, or with a prefix of the bytes written); non-trivial: at '
        'least one crash happened in an operation which writes')
STATES = 'hash of (registered entries, values written by the user) at each observation'
ASSUMPTIONS = ['a crash ends the process: bytes already passed to write() survive, buffered bytes are lost; no loss of '
               'writes the operating system already accepted (power failure) is simulated',
               'one process works on a project at a time']


def gen(rng, tier):
    case = disk.gen_base(rng, tier)
    ops = disk.gen_ops(rng, case, rng.randint(2, 9 if tier == 'quick' else 16))
    faulty = [op for op in ops if op['op'] in ('init', 'load', 'reload', 'create', 'create_spec')]
    for op in faulty:
        if rng.random() < 0.45:
            op['fault'] = gen_fault(rng)
            if rng.random() < 0.15:
                op['again'] = [gen_fault(rng) for _ in range(rng.randint(1, 2))]
    case['ops'] = ops
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


def gen_fault(rng):
    return {'kind': 'crash', 'pos': round(rng.random(), 3), 'among': rng.choice(['w', 'w', 'w', 'any']),
            'when': rng.choice(['before', 'after', 'mid', 'mid']), 'frac': round(rng.random(), 2)}


def plan(fault, steps):
    n = len([s for s in steps if s[2]]) if fault['among'] == 'w' else len(steps)
    if n == 0:
        return None
    return {'kind': fault['kind'], 'among': fault['among'], 'at': 1 + min(n - 1, int(fault['pos'] * n)),
            'when': fault['when'], 'frac': fault.get('frac', 0.5), 'span': fault.get('span', 1)}


def run(w):
    s = disk.Session(w)
    st = w.state
    ops = w.case['ops']
    if st['incarnation'] == 0:
        P.write_modules(w, w.case)
        if w.case['preexisting']:
            P.write_project(w, w.case, s.pr)
        else:
            w.case['project']['tree'] = {}
        st['pc'] = 0
        st['recover'] = None
    if st['recover'] is not None:
        recover(w, s)
    elif st['incarnation'] > 0:
        start(w, s)
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(op.get('dt', 1.0))
        w.log(st['pc'], {k: v for k, v in op.items() if k != 'fault'})
        step(w, s, op)
        st['pc'] += 1
    st['recover'] = None
    if st.get('final') is None:
        st['final'] = True
        w.restart()
    s.observe('at the end')


def start(w, s):
    """a fresh process starts with the directory"""
    for kind in ('init', 'load'):
        w.must(f'{kind} after restart', s.action({'op': kind}))
    s.observe('after restart')
    s.st['entries'] = s.dict_entries()


def recover(w, s):
    """after a crash"""
    st = w.state
    r = st['recover']
    what = f"after a crash in {r['op']}"
    s.check_files(what, r['before'], r['after'], r['dirs'])
    st['recover'] = None
    again = r['again']
    if again:
        # crashes also while starting again
        for kind in ('init', 'load'):
            attempt(w, s, {'op': kind}, again[0], again[1:], r['pc'])
        s.observe(what)
        s.st['entries'] = s.dict_entries()
    else:
        start(w, s)
    op = w.case['ops'][r['pc']]
    if op['op'] in ('create', 'create_spec'):
        w.must(f"{op['op']} again {what}", s.action(op))
        s.observe('after creating again')
        s.st['entries'] = s.dict_entries()
        path = f"{op['sec']}.{op['item']}" if op['op'] == 'create' else op['path']
        if path not in s.st['entries']:
            raise Violation('entry-lost', f'{path} was created and is not in the dict file')
    st['pc'] = r['pc'] + 1


def attempt(w, s, op, fault, again, pc):
    twin = s.twin(op)
    if not twin['ok']:
        raise Violation('unexpected-exception', f"{op} failed without any fault: {twin['exc']}\n{twin.get('tb')}")
    before = s.files()
    if fault is not None:
        f = plan(fault, twin['steps'])
        if f is not None:
            w.state['recover'] = {'op': op['op'], 'before': before, 'after': twin['files'], 'dirs': twin['dirs'],
                                  'again': again, 'pc': pc}
            w.count('nontrivial')
            DISK.begin(f)
    w.must(str(op), s.action(op))
    DISK.begin(None)
    w.state['recover'] = None
    if s.files() != twin['files']:
        raise Violation('twin-differs', f'{op} left other files than its twin')


def step(w, s, op):
    st = w.state
    k = op['op']
    if k == 'restart':
        st['pc'] += 1
        w.restart()
    if k not in ('init', 'edit', 'declare') and s.pm is None or not s.applicable(op):
        w.log('  not applicable')
        return
    w.count('op:' + k)
    if k == 'edit':
        s.user_edit(op)
        return
    if k == 'declare':
        s.declare(op)
        s.st['entries'] = s.dict_entries()
        return
    if k == 'use':
        w.must(str(op), s.action(op))
        return
    if op.get('fault'):
        attempt(w, s, op, op['fault'], op.get('again', []), st['pc'])
    else:
        w.must(str(op), s.action(op))
    if k in ('load', 'reload'):
        s.observe('after ' + k)
    if k != 'init':
        st['entries'] = s.dict_entries()
