"""C09: every iteration case runs with exactly its own configuration"""
import copy
import io
import itertools
import sys
import zlib

from ..seams import DISK, CLOCK
from ..world import Violation, HarnessError, raise_fault, NONE
from . import proj as P
from . import conf as C
from .c05 import gen_proj

RUNS = {'quick': 1600, 'thorough': 80000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-2 generated projects and 5-24 operations: setting up iterations over one or several items of one or '
        'both managers, with cases skipped or modified by plugins, running them at once, again, or step by step and '
        'interleaved, also from inside of running items; updates, resets, refreshes, file edits, reloads and runs in '
        'between; exceptions and interrupts at seeded calls of user code and of plugins while a case is applied; '
        'non-trivial: a case was executed after something else had changed, run or failed since the iteration was set up')
STATES = 'hash of (cases, position) of every iteration and the configuration of all items after each operation'
ASSUMPTIONS = ['cases are the product over the touched items of the updates given for each, in the order given',
               'arguments which a case does not mention have the value from when the iteration was set up']
FAULTS = ['error', 'error', 'value', 'kbi', 'exit', 'key', 'genexit', 'memory', 'quit']
VALUES = [None, 'v', [1, 2], {'k': [3]}, (4, 5), '', 'w', 7, 8, 9]


def gen_value(rng):
    return rng.choice(VALUES) if rng.random() < 0.4 else rng.randrange(100, 140)


def gen_setup(rng, case, g):
    nodes = case['nodes']
    ms = [pr['name'] for pr in case['projects']]
    how = rng.choice(['product', 'gen', 'gen', 'runner', 'runner', 'sub'])
    m = rng.choice(ms) if how in ('product', 'gen') or rng.random() < 0.4 else None
    mine = [i for i, nd in enumerate(nodes) if m is None or nd[0] == m]
    run = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        i = rng.choice(mine)
        mm, p, _, spec, _ = nodes[i]
        if not spec and rng.random() < 0.2:
            run.append([mm, '.'.join(p.split('.')[:rng.randint(1, p.count('.'))]), 'section'])
        else:
            run.append([mm, p, rng.choice(['str', 'str', 'view'])])
    touched = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = rng.choice(run)
        inside = [i for i in mine if nodes[i][0] == r[0] and (nodes[i][1] == r[1] or nodes[i][1].startswith(r[1] + '.'))]
        i = rng.choice(inside) if rng.random() < 0.75 else rng.choice(mine)
        if i not in touched and not nodes[i][4]:
            touched.append(i)
    ups = []
    for i in touched:
        m_, p, args, _, _ = nodes[i]
        for _ in range(rng.choice([1, 2, 2, 3])):
            up = {'section_path_str': p if m is not None else f'{m_}.{p}'}
            for a in rng.sample(args[1:], rng.randint(1, len(args) - 1)):
                up[a] = gen_value(rng)
            ups.append(up)
    if rng.random() < 0.3:
        rng.shuffle(ups)
    return {'op': 'setup', 'g': g, 'how': how, 'm': m, 'run': run, 'ups': ups,
            'mod': rng.choice([None] * 7 + ['reverse', 'first', 'none', 'twice', 'partial', 'extra']),
            'mask': rng.randrange(1 << 16), 'single': len(run) == 1 and rng.random() < 0.6}


def gen(rng, tier):
    n = rng.choice([1, 2])
    case = {'modules': {}, 'projects': []}
    for name in ('pm', 'pm2')[:n]:
        mods, pr = gen_proj(rng, name)
        case['modules'].update(mods)
        case['projects'].append(pr)
        pr['force'] = rng.random() < 0.2
    kinds = {it['n']: it for m in case['modules'].values() for it in m}
    nodes = [[pr['name'], p, [a['n'] for a in kinds[nm]['args']], spec, None] for pr in case['projects']
             for p, nm, spec in C.all_items(pr)]
    rng.shuffle(nodes)
    case['nodes'] = nodes
    # some items read an argument of another item. These are only run
    for i, nd in enumerate(nodes):
        others = [j for j in range(i) if not nodes[j][4]]
        if others and not nd[3] and rng.random() < 0.2:
            j = rng.choice(others)
            nd[4] = [nodes[j][0], nodes[j][1], rng.choice(nodes[j][2][1:])]
    case['files'] = {f'{m}.{p}': {a: gen_value(rng) for a in args[1:]} for m, p, args, _, _ in nodes}
    free = [i for i, nd in enumerate(nodes) if not nd[4]]
    case['scripts'] = {}
    n_g = rng.choice([1, 2, 3])
    for i, nd in enumerate(nodes):
        acts = []
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 2)):
                k = rng.random()
                if k < 0.5:
                    acts.append({'do': 'next', 'g': rng.randrange(n_g)})
                elif k < 0.7:
                    acts.append({'do': 'run_all', 'g': rng.randrange(n_g)})
                else:
                    j = rng.choice(free)
                    acts.append({'do': 'update', 't': j, 'v': {rng.choice(nodes[j][2][1:]): gen_value(rng)}})
        case['scripts'][f'{nd[0]}.{nd[1]}'] = acts
    ops = []
    for g in range(n_g):
        ops.append(gen_setup(rng, case, g))
    for _ in range(rng.randint(5, 24 if tier == 'thorough' else 16)):
        k = rng.random()
        j = rng.choice(free)
        one = {rng.choice(nodes[j][2][1:]): gen_value(rng)}
        if k < 0.10:
            op = gen_setup(rng, case, rng.randrange(n_g))
        elif k < 0.45:
            op = {'op': 'next', 'g': rng.randrange(n_g)}
        elif k < 0.60:
            op = {'op': 'run_all', 'g': rng.randrange(n_g), 'collect': rng.random() < 0.8}
        elif k < 0.70:
            op = {'op': 'update', 't': j, 'v': one}
        elif k < 0.75:
            op = {'op': 'reset', 't': j}
        elif k < 0.79:
            op = {'op': 'run', 't': rng.randrange(len(nodes))}
        elif k < 0.83:
            op = {'op': 'edit', 't': j, 'v': one, 'then': rng.choice(['reset', 'refresh'])}
        elif k < 0.86:
            op = {'op': 'reload', 'm': rng.choice(case['projects'])['name']}
        elif k < 0.89:
            op = {'op': 'close', 'g': rng.randrange(n_g)}
        elif k < 0.93:
            op = {'op': 'mutate', 'g': rng.randrange(n_g)}
        elif k < 0.96:
            op = {'op': 'gen_again', 'g': rng.randrange(n_g)}
        else:
            op = {'op': 'force', 'm': rng.choice(case['projects'])['name'], 'v': rng.random() < 0.4}
        if op['op'] in ('next', 'run_all', 'run') and rng.random() < 0.3:
            op['fault'] = {'at': rng.choice([0, 0, 1, 1, 2, 3, 5]), 'x': rng.choice(FAULTS), 'where':
                           rng.choice(['user', 'user', 'user', 'first', 'last', 'should'])}
        ops.append(op)
    case['ops'] = ops
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


class It:
    """an iteration, according to the harness"""

    def __init__(self, sim, op):
        self.op = op
        self.ups = copy.deepcopy(op['ups'])
        m = op['m']
        self.m = m
        by = {}
        for u in self.ups:
            by.setdefault(u['section_path_str'], []).append(u)
        cases = [tuple(c) for c in itertools.product(*by.values())]
        self.cases = modify(op['mod'], cases)
        self.touched = [self.full(u) for u in self.ups]
        self.defaults = {f: dict(sim.values(f)) for c in self.cases for f in map(self.full, c)}
        self.leaves = []
        for mm, p, kind in op['run'][:1] if op['single'] else op['run']:
            self.leaves.append((mm, p, sim.items_of(mm, p)))
        self.used = set(self.touched) | {f for _, _, ls in self.leaves for f in ls}
        # what the items read from others belongs to the iteration, too
        for f in list(self.used):
            if sim.reads.get(f):
                self.used.add('.'.join(sim.reads[f][:2]))
        self.runner = None
        self.gen = None
        self.pos = 0
        self.dead = False
        self.busy = False
        self.pairs = []

    def full(self, u):
        return u['section_path_str'] if self.m is None else f"{self.m}.{u['section_path_str']}"

    def wanted(self, case):
        return self.op['how'] != 'sub' or mask(self.op['mask'], case)


def mask(salt, case):
    return zlib.crc32((repr(case) + str(salt)).encode()) % 3 != 0


def modify(mod, cases):
    if mod == 'reverse':
        return cases[::-1]
    if mod == 'first':
        return cases[:1]
    if mod == 'none':
        return []
    if mod == 'twice':
        return cases + cases[:2]
    if mod == 'partial':
        return [c[:-1] if i % 2 == 0 and len(c) > 1 else c for i, c in enumerate(cases)]
    if mod == 'extra':
        return cases + [tuple({k: (v if k == 'section_path_str' else 'extra') for k, v in u.items()} for u in c)
                        for c in cases[:1]]
    return cases


class Frame:
    def __init__(self, it, leaves):
        self.it = it
        self.queue = list(leaves)


class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.projects = {pr['name']: pr for pr in self.case['projects']}
        self.nodes = self.case['nodes']
        self.reads = {f'{m}.{p}': r for m, p, _, _, r in self.nodes}
        self.args = {f'{m}.{p}': a for m, p, a, _, _ in self.nodes}
        self.disk = copy.deepcopy(self.case['files'])
        self.file = copy.deepcopy(self.case['files'])
        self.lasting = {f: {} for f in self.file}
        self.force = {pr['name']: pr['force'] for pr in self.case['projects']}
        self.its = {}
        self.frames = []
        self.events = 0
        self.updates_applied = 0
        self.fault = None
        self.mod = None
        self.n = 0
        self.dirty = False
        self.depth = 0
        self.pms = {}
        w.broken = None
        w.hook = self.hook

    # -- model
    def values(self, f):
        out = {**self.file[f], **self.lasting[f]}
        r = self.reads.get(f)
        if r:
            out[self.args[f][1]] = self.values(f'{r[0]}.{r[1]}')[r[2]]
        return out

    def items_of(self, m, p):
        return [f'{m}.{q}' for q, _, _ in C.all_items(self.projects[m]) if q == p or q.startswith(p + '.')]

    def bad(self, kind, detail):
        if self.w.broken is None:
            self.w.broken = Violation(kind, detail)
        raise SystemExit('violation')

    # -- user code
    def hook(self, site, args):
        if self.w.broken:
            raise SystemExit('violation')
        args = dict(args)
        f = args.pop('w')
        args.pop('name', None)
        n = self.events
        self.events += 1
        fr = self.frames[-1] if self.frames else None
        self.w.log('  ' + '  ' * len(self.frames), f, args)
        if fr is None or not fr.queue or fr.queue[0] != f:
            self.bad('wrong-item', f'{f} is run, next is {fr.queue[:3] if fr else None}')
        fr.queue.pop(0)
        want = self.values(f)
        if args != want:
            self.bad('wrong-config', f'{f} is run with {args}, expected {want}; case {getattr(fr.it, "case", None)}')
        self.w.count('check:config')
        if fr.it is not None and self.dirty:
            self.w.count('nontrivial')
        ft = self.fault
        if ft and ft['where'] == 'user' and ft['at'] == n:
            self.w.count(f"fault:user:{ft['x']}")
            fr.failed = f
            raise_fault(ft['x'], f)
        if self.events < 40 and len(self.frames) < 4:
            for a in self.case['scripts'][f]:
                self.nested(a)
        self.n += 1
        fr.results.append(self.n)
        return self.n

    def nested(self, a):
        """something unrelated to the iterations which are going on"""
        used = set()
        for fr in self.frames:
            if fr.it is not None:
                used |= fr.it.used
            else:
                used |= fr.mine
        if a['do'] == 'update':
            m, p, _, _, _ = self.nodes[a['t']]
            if f'{m}.{p}' in used:
                return
            self.update(a)
            return
        it = self.its.get(a['g'])
        if it is None or it.busy or it.used & used:
            return
        fault, self.fault = self.fault, None
        try:
            self.w.count('check:nested')
            if a['do'] == 'next':
                self.next(it)
            else:
                self.run_all(it, True)
        finally:
            self.fault = fault

    def update(self, op):
        m, p, _, _, _ = self.nodes[op['t']]
        self.w.must('update', self.pms[m].update, dict(op['v']), p)
        self.lasting[f'{m}.{p}'].update(copy.deepcopy(op['v']))
        self.dirty = True

    # -- plugins
    def make_plugin(self, where):
        from pyfileconf.plugin.impl import hookimpl
        sim = self

        class Plugin:
            if where == 'modify':
                @hookimpl
                def pyfileconf_iter_modify_cases(self, cases, runner):
                    cases[:] = modify(sim.mod, list(cases))
            elif where == 'first':
                @hookimpl(tryfirst=True)
                def pyfileconf_iter_update_for_case(self, case, runner):
                    sim.plugin_fault('first')
            else:
                @hookimpl(trylast=True)
                def pyfileconf_iter_update_for_case(self, case, runner):
                    sim.plugin_fault('last')
        return Plugin()

    def plugin_fault(self, where):
        ft = self.fault
        fr = self.frames[-1] if self.frames else None
        if where == 'last' and isinstance(fr, CaseFrame):
            # the updates of a case have been applied
            fr.settle()
            if fr.active or not fr.cases:
                self.bad('wrong-case', f'a case is applied while {fr.case} is not done, {len(fr.cases)} cases are left')
            fr.begin()
        if ft and ft['where'] == where:
            if self.updates_applied == ft['at']:
                self.w.count(f"fault:plugin:{ft['x']}")
                self.updates_applied += 1
                if isinstance(fr, CaseFrame):
                    fr.active = False
                    fr.cases = []
                raise_fault(ft['x'], 'plugin')
            if where == 'last' or ft['where'] == 'first':
                self.updates_applied += 1

    # -- iterations
    def setup(self, op):
        from pyfileconf import IterativeRunner, Selector
        it = It(self, op)
        self.mod = op['mod']
        run = []
        for m, p, kind in op['run'][:1] if op['single'] else op['run']:
            if kind == 'view':
                v = getattr(Selector(), m)
                for part in p.split('.'):
                    v = getattr(v, part)
                run.append(v)
            else:
                run.append(p if op['m'] is not None else f'{m}.{p}')
        arg = run[0] if op['single'] else run
        it.given = copy.deepcopy(op['ups'])
        how = op['how']
        if how == 'product':
            it.args = (self.pms[op['m']], arg, it.given)
        elif how == 'gen':
            it.gen = self.w.must('setting up', self.pms[op['m']].run_product_gen, arg, it.given)
        else:
            cls = IterativeRunner
            if how == 'sub':
                sim = self

                class cls(IterativeRunner):
                    def should_run(self, case):
                        ft = sim.fault
                        if ft and ft['where'] == 'should' and sim.events == ft['at']:
                            sim.w.count(f"fault:should_run:{ft['x']}")
                            raise_fault(ft['x'], 'should_run')
                        return mask(op['mask'], tuple(case))
            base = dict(base_section_path_str=op['m'], strip_manager_from_iv=True) if op['m'] is not None else {}
            it.runner = self.w.must('setting up', cls, arg, it.given, **base)
            it.gen = it.runner.run_gen()
        self.mod = None
        self.its[op['g']] = it

    def apply(self, it, case):
        for f, d in it.defaults.items():
            self.lasting[f].update({k: v for k, v in d.items()})
        for u in case:
            self.lasting[it.full(u)].update({k: v for k, v in copy.deepcopy(u).items() if k != 'section_path_str'})

    def expect_case(self, it, case):
        """generator protocol of one case: what runs"""

    def drive(self, it, cases, call):
        """call executes the cases one after the other. Yields to the hooks through frames"""
        it.busy = True
        sim = self
        todo = [c for c in cases if it.wanted(c)]
        fr = CaseFrame(self, it, todo)
        self.frames.append(fr)
        try:
            o = self.w.call(call)
        finally:
            self.frames.pop()
            it.busy = False
        if self.w.broken:
            raise self.w.broken
        return o, fr

    def next(self, it):
        if it.op['how'] == 'product' or it.gen is None:
            return
        todo = [c for c in it.cases[it.pos:] if it.wanted(c)]
        if it.dead:
            todo = []
        o, fr = self.drive(it, it.cases[it.pos:][:self.until(it)] if not it.dead else [], lambda: next(it.gen))
        if not todo:
            it.dead = True
            faulty = o.exc is not None and not isinstance(o.exc, StopIteration) and fr.fault_due
            if not (o.exc is not None and isinstance(o.exc, StopIteration)) and not (self.fault and not o.ok):
                self.bad('too-many-cases', f'the iteration is over but gave {o!r}')
            return
        it.pos += self.until(it)
        self.judge(fr, o, lambda v: [v])
        if not o.ok:
            it.dead = True
            raise o.exc

    def until(self, it):
        """number of cases until and including the next which is not skipped"""
        n = 0
        for c in it.cases[it.pos:]:
            n += 1
            if it.wanted(c):
                return n
        return n

    def run_all(self, it, collect):
        if it.op['how'] == 'gen':
            return
        if it.op['how'] == 'product':
            # sets up and runs in one call
            pm, arg, ups = it.args
            it2 = It(self, {**it.op, 'ups': it.given})
            self.mod = it.op['mod']
            o, fr = self.drive(it2, it2.cases, lambda: pm.run_product(arg, ups, collect_results=collect))
            self.mod = None
        else:
            o, fr = self.drive(it, it.cases, lambda: it.runner.run(collect_results=collect))
        self.judge(fr, o, lambda v: v if collect else [])
        if not collect and o.ok and o.value != []:
            self.bad('wrong-result', f'{o.value!r} although results are not collected')
        if not o.ok:
            raise o.exc

    def judge(self, fr, o, pairs):
        it = fr.it
        fr.settle()
        if o.ok:
            if fr.left():
                self.bad('not-run', f'not all was run: {fr.left()[:4]}')
            got = pairs(o.value)
            if got or not o.value == []:
                want = list(fr.pairs)
                if [list(map(as_tuple, p)) for p in got] != [list(map(as_tuple, p)) for p in want]:
                    self.bad('wrong-result', f'got {got}, expected {want}')
        elif not self.fault:
            self.bad('unexpected-exception:' + type(o.exc).__name__, f'{o!r} of {it.op}')
        self.w.count('check:iteration')


def as_tuple(x):
    return tuple(x) if isinstance(x, tuple) else x


class CaseFrame:
    """cases being executed: which item runs next, and the configuration it must have then"""

    def __init__(self, sim, it, cases):
        self.sim, self.it = sim, it
        self.cases = list(cases)
        self.pairs = []
        self.results = []
        self.failed = None
        self.fault_due = False
        self.case = None
        self.todo = []         # (manager, leaves) of the current case which are left
        self.values = []
        self.current = None
        self.active = False

    # called by the hook
    @property
    def queue(self):
        self.settle()
        if not self.active:
            if not self.cases:
                return []
            self.begin()
        return self.peek()

    def begin(self):
        self.case = self.it.case = self.cases.pop(0)
        self.sim.apply(self.it, self.case)
        self.todo = [(m, p, list(ls)) for m, p, ls in self.it.leaves]
        self.values = []
        self.results = []
        self.active = True

    def peek(self):
        return Queue(self)

    def settle(self):
        """account for what ended since the last event"""
        while self.active:
            if self.failed is not None:
                m = self.failed.split('.')[0]
                if self.sim.force[m] and not self.fatal():
                    # this element gives no result, the next one goes on
                    self.values.append([])
                    self.todo.pop(0)
                    self.results = []
                    self.failed = None
                else:
                    self.active = False
                    self.cases = []
                    self.todo = []
                    return
            elif self.todo and not self.todo[0][2]:
                m, p, _ = self.todo.pop(0)
                self.values.append(self.sim.shape(m, p, self.results))
                self.results = []
            if not self.todo:
                self.pairs.append((self.case, self.values[0] if len(self.values) == 1 else self.values))
                self.active = False
            elif self.failed is None and self.todo[0][2]:
                return

    def fatal(self):
        return self.sim.fault['x'] in ('kbi', 'exit', 'quit', 'genexit')

    def left(self):
        return self.cases if not self.active else self.todo


class Queue:
    def __init__(self, fr):
        self.fr = fr

    def __bool__(self):
        return bool(self.fr.todo)

    def __getitem__(self, i):
        flat = [l for _, _, ls in self.fr.todo for l in ls]
        return flat[i]

    def pop(self, i):
        return self.fr.todo[0][2].pop(0)


class RunFrame:
    def __init__(self, leaf):
        self.it = None
        self.queue = [leaf]
        self.mine = {leaf}
        self.results = []
        self.failed = None


def shape(pr, name, values):
    it = iter(values)

    def of(sub):
        if isinstance(sub, dict):
            return [of(v) for v in sub.values()]
        out = []
        for x in sub:
            if isinstance(x, dict):
                out.extend(of(v) for v in x.values())
            else:
                out.append(next(it))
        return out
    cur = pr['tree']
    for part in name.split('.'):
        if isinstance(cur, dict) and part in cur:
            cur = cur[part]
        elif isinstance(cur, list) and any(isinstance(x, dict) and part in x for x in cur):
            cur = [x[part] for x in cur if isinstance(x, dict) and part in x][0]
        else:
            return values[0]
    return of(cur)


Sim.shape = lambda self, m, p, values: shape(self.projects[m], p, values)


def write_config(w, sim, f):
    m, p = f.split('.', 1)
    text = ''
    r = sim.reads.get(f)
    vals = sim.disk[f]
    if r:
        text = f'from pyfileconf import Selector\n\ns = Selector()\n'
    text += f'w = {f!r}\n'
    for a in sim.args[f][1:]:
        if r and a == sim.args[f][1]:
            is_f = r[1].split('.')[-1].startswith('f')
            text += f's.{r[0]}.{r[1]}'.join([f'{a} = ', f'.keywords[{r[2]!r}]\n' if is_f else f'.{r[2]}\n'])
        else:
            text += f'{a} = {vals[a]!r}\n'
    if p.split('.')[0] == 'ex':
        text += f"name = {p.split('.')[-1]!r}\n"
    w.write(P.config_rel(sim.projects[m], p), text)


def run(w):
    from pyfileconf.plugin import manager
    sim = Sim(w)
    P.write_modules(w, w.case)
    for pr in w.case['projects']:
        P.write_project(w, w.case, pr)
    for f in sim.file:
        write_config(w, sim, f)
    for m, pr in sim.projects.items():
        sim.pms[m] = w.must('constructing', P.make_manager, w, w.case, pr, force_continue=sim.force[m])
    for m in sim.projects:
        w.must('loading', sim.pms[m].load)
    for where in ('modify', 'first', 'last'):
        manager.plm.register(sim.make_plugin(where))
    sys.stdin = io.StringIO()
    for pc, op in enumerate(w.case['ops']):
        CLOCK.advance(1.0)
        w.log(pc, op)
        sim.events = 0
        sim.updates_applied = 0
        sim.fault = op.get('fault')
        o = w.call(step, w, sim, op)
        fault, sim.fault = sim.fault, None
        if w.broken:
            raise w.broken
        if not o.ok and not fault:
            raise Violation('unexpected-exception:' + type(o.exc).__name__, f'{op}: {o!r}')
        w.log('  ->', 'ok' if o.ok else type(o.exc).__name__)
        for f in sim.file:
            m, p = f.split('.', 1)
            want = sim.values(f)
            cfg = sim.config(f)
            if cfg != want:
                raise Violation('wrong-config-after', f'after {op} the configuration of {f} is {cfg}, expected {want}')
        w.note_state(([(g, it.pos, it.dead, repr(it.cases)) for g, it in sim.its.items()],
                      sorted((f, repr(sim.values(f))) for f in sim.file)))


def config(self, f):
    m, p = f.split('.', 1)
    obj = self.pms[m].get(p)
    kw = obj.keywords if hasattr(obj, 'keywords') else obj.__dict__
    return {a: kw[a] for a in self.args[f][1:]}


Sim.config = config


def step(w, sim, op):
    k = op['op']
    w.count('op:' + k)
    if k == 'setup':
        if not op['ups']:
            return
        sim.setup(op)
        return
    if k in ('next', 'run_all', 'close', 'mutate', 'gen_again'):
        it = sim.its.get(op['g'])
        if it is None:
            return
        if k == 'next':
            sim.next(it)
        elif k == 'run_all':
            sim.run_all(it, op['collect'])
            sim.dirty = True
        elif k == 'close':
            if it.gen is not None:
                it.gen.close()
                it.dead = True
        elif k == 'mutate':
            for u in it.given:
                for key in u:
                    if key != 'section_path_str':
                        if isinstance(u[key], list):
                            u[key].append('mutated')
                        else:
                            u[key] = 'mutated'
        elif it.runner is not None:
            it.gen = it.runner.run_gen()
            it.pos, it.dead = 0, False
        return
    if k == 'reload':
        m = op['m']
        sim.pms[m].reload()
        for f in sim.file:
            if f.startswith(m + '.'):
                sim.file[f] = dict(sim.disk[f])
                sim.lasting[f] = {}
        sim.dirty = True
        return
    if k == 'force':
        sim.pms[op['m']].force_continue = op['v']
        sim.force[op['m']] = op['v']
        return
    m, p, args, spec, _ = sim.nodes[op['t']]
    f = f'{m}.{p}'
    pm = sim.pms[m]
    sim.dirty = True
    if k == 'update':
        sim.update(op)
    elif k == 'reset':
        pm.reset(p)
        sim.file[f] = dict(sim.disk[f])
        sim.lasting[f] = {}
    elif k == 'edit':
        sim.disk[f].update(op['v'])
        write_config(w, sim, f)
        if op['then'] == 'reset':
            pm.reset(p)
            sim.lasting[f] = {}
        else:
            pm.refresh(p)
        sim.file[f] = dict(sim.disk[f])
    elif k == 'run':
        fr = RunFrame(f)
        sim.frames.append(fr)
        try:
            o = w.call(pm.run, p)
        finally:
            sim.frames.pop()
        if w.broken:
            raise w.broken
        if fr.queue:
            raise Violation('not-run', f'{f} was not run: {o!r}')
        if not o.ok:
            raise o.exc
    else:
        raise HarnessError(k)
