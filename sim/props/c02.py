"""C02: I/O errors surface, lose nothing, and the operation can be retried"""
from ..seams import DISK, CLOCK
from ..world import Violation
from . import proj as P
from . import disk
from .c01 import plan

RUNS = {'quick': 700, 'thorough': 40000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is a generated project (0-2 levels of sections, functions, classes, specific class entries), 3-14 '
        'operations (construct, load, reload, create entry, use entry, user edits of config, section and dict files, '
        'restart) and disk errors at seeded I/O steps, for one step, for some or until the operation ends, before or '
        'after a step or with a prefix of the bytes written; non-trivial: at least one error was injected')
STATES = 'hash of (registered entries, values written by the user) at each observation'
ASSUMPTIONS = ['errors of stat calls are not injected (Python itself reports them as missing files)',
               'one process works on a project at a time']
ERRORS = ['EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EMFILE', 'EDQUOT', 'EPERM', 'EBUSY']


def gen_fault(rng):
    return {'kind': rng.choice(ERRORS), 'pos': round(rng.random(), 3), 'among': rng.choice(['w', 'w', 'any', 'any', 'r']),
            'when': rng.choice(['before', 'before', 'after', 'mid']), 'frac': round(rng.random(), 2),
            'span': rng.choice([1, 1, 1, 2, 5, 100000])}


def gen(rng, tier):
    case = disk.gen_base(rng, tier)
    ops = disk.gen_ops(rng, case, rng.randint(2, 9 if tier == 'quick' else 16))
    for op in ops:
        if op['op'] in ('init', 'load', 'reload', 'create', 'create_spec', 'use') and rng.random() < 0.5:
            op['faults'] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
            op['retry'] = rng.choice(['same', 'same', 'new', 'reload'])
    case['ops'] = ops
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


def has_cause(exc, fired):
    kinds = {f[0] for f in fired}
    seen = set()
    todo = [exc]
    import errno
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, OSError) and errno.errorcode.get(e.errno) in kinds:
            return True
        todo += [e.__cause__, e.__context__]
    return False


def plan_r(fault, steps):
    if fault['among'] != 'r':
        return plan(fault, steps)
    n = len([s for s in steps if not s[2]])
    if n == 0:
        return None
    return {'kind': fault['kind'], 'among': 'r', 'at': 1 + min(n - 1, int(fault['pos'] * n)),
            'when': fault['when'], 'frac': fault['frac'], 'span': fault['span']}


def run(w):
    s = disk.Session(w)
    st = w.state
    ops = w.case['ops']
    if st['incarnation'] == 0:
        P.write_modules(w, w.case)
        if w.case['preexisting']:
            P.write_project(w, w.case, s.pr)
        else:
            w.case['project']['tree'] = {}
        st['pc'] = 0
    else:
        for kind in ('init', 'load'):
            w.must(f'{kind} after restart', s.action({'op': kind}))
        s.observe('after restart')
        st['entries'] = s.dict_entries()
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(op.get('dt', 1.0))
        w.log(st['pc'], op)
        step(w, s, op)
        st['pc'] += 1
    if not st.get('final'):
        st['final'] = True
        w.restart()


def step(w, s, op):
    st = w.state
    k = op['op']
    if k == 'restart':
        st['pc'] += 1
        w.restart()
    if k not in ('init', 'edit', 'declare') and s.pm is None or not s.applicable(op):
        w.log('  not applicable')
        return
    w.count('op:' + k)
    if k == 'edit':
        s.user_edit(op)
        return
    if k == 'declare':
        s.declare(op)
        st['entries'] = s.dict_entries()
        return
    if op.get('faults'):
        disturbed(w, s, op)
    else:
        w.must(k, s.action(op))
    if k in ('load', 'reload'):
        s.observe('after ' + k)
    if k != 'init':
        st['entries'] = s.dict_entries()


def disturbed(w, s, op):
    k = op['op']
    twin = s.twin(op, observe=k in ('load', 'reload', 'create', 'create_spec'))
    if not twin['ok']:
        raise Violation('unexpected-exception:twin', f"{op} failed without any fault: {twin['exc']}\n{twin.get('tb')}")
    first = before_retry(s, op)
    if first:
        s.final_twin = s.twin(op, observe=twin['results'] is not None, after=first)
        if not s.final_twin['ok']:
            raise Violation('unexpected-exception:twin', f"{op} and {first} failed without any fault: "
                                                         f"{s.final_twin['exc']}\n{s.final_twin.get('tb')}")
    before = s.files()
    failed = False
    for fault in op['faults']:
        f = plan_r(fault, twin['steps'])
        if f is None:
            break
        DISK.begin(f)
        o = w.call(s.action(op))
        fired = list(DISK.fired)
        w.account_faults()
        DISK.begin(None)
        w.log('  ->', o if o.ok else type(o.exc).__name__)
        if fired:
            w.count('nontrivial')
        if o.ok:
            # nothing depended on it
            if s.files() != twin['files']:
                raise Violation('error-hidden', f'{op} succeeded despite {fired}, but left other files: '
                                + diff(s.files(), twin['files']))
            if twin['results'] is not None:
                same_results(w, s, f'{k} which succeeded despite {fired}', twin)
            return
        if not fired:
            raise Violation('unexpected-exception:later', f'{op} raised {o!r} although no fault was injected in it')
        if not has_cause(o.exc, fired):
            raise Violation('error-replaced', f'{op} raised {o!r} instead of {fired}')
        s.check_files(f'after {fired} in {k}', before, twin['files'], twin['dirs'])
        w.count('check:surfaces')
        failed = True
    if not failed:
        w.must(k, s.action(op))
    else:
        if first:
            w.log('  retry', op['retry'])
            for a in first:
                w.must(f"{a['op']} once the fault is gone", s.action(a))
            s.observe('once the fault is gone')
            twin = s.final_twin
        w.must(f'{k} once the fault is gone', s.action(op))
        for a in first:
            w.must(f"{a['op']} after the retry", s.action(a))
    if s.files() != twin['files']:
        raise Violation('retry-differs', f'{op} after the faults are gone left other files than without faults: '
                        + diff(s.files(), twin['files']))
    if twin['results'] is not None:
        same_results(w, s, f'{k} again', twin)


def before_retry(s, op):
    """what the user does before trying again"""
    if op['op'] == 'init' or s.st['entries'] is None:
        return []
    return {'same': [], 'new': [{'op': 'init'}, {'op': 'load'}], 'reload': [{'op': 'reload'}]}[op['retry']]


def same_results(w, s, what, twin):
    now = s.results()
    if now != twin['results']:
        bad = [p for p in set(now) | set(twin['results']) if now.get(p) != twin['results'].get(p)]
        raise Violation('retry-differs', f'{what}: ' + '; '.join(
            f"{p}: {now.get(p)} instead of {twin['results'].get(p)}" for p in sorted(bad)[:4]))


def diff(a, b):
    return '; '.join(f'{rel}: {a.get(rel)!r} instead of {b.get(rel)!r}' for rel in sorted(set(a) | set(b))
                     if a.get(rel) != b.get(rel))[:2500]
