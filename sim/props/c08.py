"""C08: failure-tolerant runs attempt everything once and report every failure"""
import io
import logging
import re
import sys

from ..seams import DISK, CLOCK
from ..world import Violation, HarnessError, raise_fault, NONE
from . import proj as P
from . import conf as C
from .c05 import gen_proj

RUNS = {'quick': 2500, 'thorough': 120000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-2 generated projects, each with force-continue, automatic debugging by a function or by pdb, or '
        'neither, also switched in between; 3-14 runs of lists of items, sections, specific items, unknown paths and '
        'item views, whose user code runs lists of other items itself and catches what these raise or not; exceptions and '
        'interrupts at seeded calls, also of constructors; non-trivial: something failed in a run of several items')
STATES = 'hash of (mode, how each requested element ended) of each run'
ASSUMPTIONS = ['a list of one element is run like the element itself',
               'what is reported is recognised by the text of the exception and the path of the item in error records']
STUBS = 'user functions and classes; the debugger'
INTERRUPTS = ('kbi', 'exit', 'quit')
FAULTS = ['error', 'error', 'value', 'key', 'attr', 'memory', 'recursion', 'oserror', 'assert', 'genexit', 'kbi',
          'exit', 'quit', 'badstr', 'chained', 'group', 'notfound']
RETURNS = ['obj', 'obj', 'none', 'list', 'false', 'exc', 'tuple', 'zero', 'pair']


class BadStr(Exception):
    def __str__(self):
        raise ValueError('no text')


def fail(do, token):
    if do == 'badstr':
        raise BadStr()
    if do == 'chained':
        try:
            raise KeyError('inner')
        except KeyError as e:
            raise ValueError(token) from e
    if do == 'group':
        raise ExceptionGroup(token, [ValueError('x'), KeyError('y')])
    if do == 'notfound':
        raise FileNotFoundError(token)
    raise_fault(do, token)


def make_value(kind, n):
    return {'obj': lambda: ('result', n), 'none': lambda: None, 'list': lambda: [n], 'false': lambda: False, 'exc': lambda:
            ValueError(f'returned {n}'), 'tuple': lambda: (n, False), 'zero': lambda: 0, 'pair': lambda: (n, True)}[kind]()


def gen_elements(rng, nodes, below, m=None):
    """a list of things of one manager to run; nodes from `below` on are not used"""
    mine = [i for i, nd in enumerate(nodes[:below]) if m is None or nd[0] == m]
    if not mine:
        return None
    if m is None:
        m = nodes[rng.choice(mine)][0]
        mine = [i for i in mine if nodes[i][0] == m]
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5])):
        k = rng.random()
        i = rng.choice(mine)
        if k < 0.58:
            out.append(['item', i])
        elif k < 0.72:
            out.append(['view', i])
        elif k < 0.80:
            out.append(['bad', rng.choice(['s0.nothing', 'nothing.at.all', nodes[i][1] + '.more', nodes[i][1] + 'x'])])
        else:
            p = nodes[i][1].split('.')
            if nodes[i][3]:
                out.append(['item', i])
                continue
            sec = '.'.join(p[:rng.randint(1, len(p) - 1)])
            inside = [j for j, nd in enumerate(nodes) if nd[0] == m and nd[1].startswith(sec + '.')]
            out.append(['section', sec] if max(inside) < below else ['item', i])
    return {'do': 'run', 'm': m, 'els': out, 'single': rng.random() < 0.3 or len(out) == 1 and rng.random() < 0.5}


def gen(rng, tier):
    n = rng.choice([1, 2, 2])
    case = {'modules': {}, 'projects': []}
    for name in ('pm', 'pm2')[:n]:
        mods, pr = gen_proj(rng, name)
        case['modules'].update(mods)
        case['projects'].append(pr)
        pr['mode'] = rng.choice(['force', 'force', 'pdb', 'pdbtrue', 'none'])
    case['debugger'] = rng.choice(['plain', 'plain', 'runs'])
    nodes = [[pr['name'], p, spec] for pr in case['projects'] for p, nm, spec in C.all_items(pr)]
    rng.shuffle(nodes)
    nodes = [[m, p, None, spec] for m, p, spec in nodes]
    case['nodes'] = nodes
    case['scripts'] = {}
    for i, nd in enumerate(nodes):
        sc = {'ret': rng.choice(RETURNS), 'acts': []}
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            a = gen_elements(rng, nodes, i)
            if a:
                a['catch'] = rng.random() < 0.5
                sc['acts'].append(a)
        if rng.random() < 0.2:
            sc['always'] = rng.choice(FAULTS)
        if rng.random() < 0.1:
            sc['init'] = rng.choice(FAULTS)
            sc['init_n'] = rng.choice([1, 1, 2, 99])
        case['scripts'][f'{nd[0]}.{nd[1]}'] = sc
    ops = []
    for _ in range(rng.randint(3, 14 if tier == 'thorough' else 9)):
        k = rng.random()
        if k < 0.1:
            ops.append({'op': 'mode', 'm': rng.choice(case['projects'])['name'],
                        'v': rng.choice(['force', 'force', 'pdb', 'pdbtrue', 'none'])})
        elif k < 0.14:
            ops.append({'op': 'reload', 'm': rng.choice(case['projects'])['name']})
        elif k < 0.17:
            ops.append({'op': 'stdout', 'v': rng.random() < 0.7})
        elif k < 0.19:
            ops.append({'op': 'both'})
        else:
            op = {'op': 'run', 'a': gen_elements(rng, nodes, len(nodes))}
            op['faults'] = [{'at': rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7]), 'x': rng.choice(FAULTS),
                             'when': rng.choice(['before', 'after'])} for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            ops.append(op)
    case['ops'] = ops
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


def minimise_ops(case):
    return [('ops',)]


class Frame:
    """a run which is going on, according to the harness"""

    def __init__(self, sim, mode, elements, leaves):
        self.mode = mode
        self.elements = elements      # [(name, [paths of items] or None)]
        self.leaves = leaves
        self.at = 0                   # element
        self.done = []                # results of the items of the current element
        self.results = []
        self.failures = []            # [(element, token, exception)]
        self.over = None              # the exception which ends the run
        self.flags = []               # for each element which ended: did it succeed
        self.debugged = []
        self.in_leaf = False

    def skip(self):
        """elements which cannot be found fail without running anything"""
        while self.over is None and self.at < len(self.elements) and self.leaves[self.at] is None:
            self.fail(None, None)
            if self.mode == 'force':
                continue
            break

    def next_leaf(self):
        self.skip()
        if self.over is not None or self.at >= len(self.elements):
            return None
        return self.leaves[self.at][len(self.done)]

    def fail(self, token, exc):
        interrupt = isinstance(exc, (KeyboardInterrupt, SystemExit)) or type(exc).__name__ == 'BdbQuit'
        if self.mode == 'force' and (exc is None or isinstance(exc, Exception) and not interrupt):
            self.failures.append((self.elements[self.at], token, exc))
            self.flags.append(False)
            self.at += 1
            self.done = []
        else:
            self.over = ('fails', token, exc)

    def ok(self, value):
        self.done.append(value)
        if len(self.done) == len(self.leaves[self.at]):
            self.results.append(list(self.done))
            self.flags.append(True)
            self.done = []
            self.at += 1


class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.projects = {pr['name']: pr for pr in self.case['projects']}
        self.nodes = self.case['nodes']
        self.pms = {}
        self.mode = {pr['name']: pr['mode'] for pr in self.case['projects']}
        self.frames = []
        self.n = 0
        self.inits = {}
        self.events = 0
        self.faults = []
        self.records = []
        self.debug_calls = []
        self.depth = 0
        w.broken = None
        w.hook = self.hook
        sim = self

        class Rec(logging.Handler):
            def emit(self, record):
                if record.levelno >= logging.ERROR:
                    sim.records.append(record.getMessage())
        self.logger = logging.getLogger('pyfileconf')
        self.logger.addHandler(Rec())

    def bad(self, kind, detail):
        if self.w.broken is None:
            self.w.broken = Violation(kind, detail)
        raise SystemExit('violation')

    def debugger(self, *args):
        self.w.log('  debugger')
        exc = sys.exc_info()[1]
        for a in args:
            if hasattr(a, 'tb_frame') and (exc is None or exc.__traceback__ is None):
                exc = a
        self.debug_calls.append(exc)
        if self.frames:
            self.frames[-1].debugged.append(exc)
        if self.case['debugger'] == 'runs':
            try:
                raise KeyError('inside of the debugger')
            except KeyError:
                pass

    def set_mode(self, m, v):
        pm = self.pms[m]
        self.mode[m] = v
        pm.force_continue = v == 'force'
        pm.auto_pdb = {'pdb': self.debugger, 'pdbtrue': True}.get(v, False)

    # -- user code
    def hook(self, site, args):
        path = args['w']
        if self.w.broken:
            raise SystemExit('violation')
        if site == 'init':
            return self.init(path)
        n = self.events
        self.events += 1
        fr = self.frames[-1] if self.frames else None
        self.w.log('  ' + '  ' * len(self.frames) + path)
        if fr is None:
            self.bad('not-requested', f'{path} is run outside of any run')
        want = fr.next_leaf()
        if path != want or fr.in_leaf:
            self.bad('wrong-attempt', f'{path} is run in a {fr.mode} run of {fr.elements} where {want} is next; '
                     f'failed until now: {[(f[0], type(f[2]).__name__) for f in fr.failures]}, over: {fr.over}')
        if self.pending_reports(fr):
            self.bad('not-reported', f'{fr.failures[-1][0]} failed with {fr.failures[-1][2]!r} but that is not reported '
                     f'before the next item runs')
        fr.in_leaf = True
        token = f'<E{self.n}>'
        self.n += 1
        sc = self.case['scripts'][path]
        try:
            self.maybe_fault(n, 'before', token)
            if len(self.frames) < 5 and self.events < 60:
                for a in sc['acts']:
                    if a['catch']:
                        try:
                            self.run(a)
                        except (Violation, HarnessError):
                            raise
                        except BaseException as e:
                            if self.w.broken:
                                raise
                            self.w.log('  ' + '  ' * len(self.frames) + f'{path} caught {type(e).__name__}')
                    else:
                        self.run(a)
            self.maybe_fault(n, 'after', token)
            if sc.get('always'):
                self.w.count(f"fault:user:{sc['always']}")
                fail(sc['always'], token)
        except BaseException as e:
            if not self.w.broken:
                fr.in_leaf = False
                self.w.log('  ' + '  ' * len(self.frames) + f'{path} fails with {type(e).__name__}')
                fr.fail(self.token_of(e), e)
            raise
        v = make_value(sc['ret'], self.n)
        fr.in_leaf = False
        fr.ok(v)
        return NONE if v is None else v

    def token_of(self, e):
        try:
            t = re.findall(r'<E\d+>', str(e))
        except Exception:
            return None
        return t[0] if t else None

    def init(self, path):
        """a class is constructed before it is run"""
        sc = self.case['scripts'].get(path)
        if sc is None or not sc.get('init') or not self.frames:
            return
        n = self.inits[path] = self.inits.get(path, 0) + 1
        if n <= sc['init_n']:
            fr = self.frames[-1]
            token = f'<E{self.n}>'
            self.n += 1
            try:
                self.w.count(f"fault:init:{sc['init']}")
                fail(sc['init'], token)
            except BaseException as e:
                want = fr.next_leaf()
                if want != path or fr.in_leaf:
                    self.bad('wrong-attempt', f'{path} is constructed in a {fr.mode} run of {fr.elements}, {want} is next')
                fr.fail(self.token_of(e), e)
                raise

    def maybe_fault(self, n, when, token):
        for f in self.faults:
            if f['at'] == n and f['when'] == when:
                self.w.count(f"fault:user:{f['x']}")
                fail(f['x'], token)

    def pending_reports(self, fr):
        """failures of a force-continue run which were not reported yet"""
        return [f for f in fr.failures if f[1] and not any(f[1] in r for r in self.records)]

    # -- running
    def run(self, a):
        m = a['m']
        pm = self.pms[m]
        els = a['els'][:1] if a['single'] else a['els']
        names, leaves, values = [], [], []
        for kind, x in els:
            if kind in ('item', 'view'):
                p = self.nodes[x][1]
                names.append(p)
                leaves.append([f'{m}.{p}'])
                if kind == 'view':
                    from pyfileconf import Selector
                    v = getattr(Selector(), m)
                    for part in p.split('.'):
                        v = getattr(v, part)
                    values.append(v)
                else:
                    values.append(p)
            elif kind == 'section':
                names.append(x)
                values.append(x)
                leaves.append([f'{m}.{p}' for p, _, spec in C.all_items(self.projects[m]) if p.startswith(x + '.')])
            else:
                names.append(x)
                values.append(x)
                leaves.append(None)
        arg = values[0] if a['single'] else values
        mode = self.mode[m]
        fr = Frame(self, mode, names, leaves)
        self.frames.append(fr)
        first_record = len(self.records)
        self.w.count('op:run:' + mode)
        stdout = sys.stdout
        try:
            o = self.w.call(pm.run, arg)
        finally:
            self.frames.pop()
        if self.w.broken:
            raise self.w.broken
        self.judge(fr, o, m, a, first_record)
        if not o.ok:
            raise o.exc
        return o.value

    def judge(self, fr, o, m, a, first):
        what = f'{fr.mode} run of {fr.elements} in {m}'
        multi = len(fr.elements) > 1
        fr.skip()
        if fr.failures or fr.over:
            self.w.count('nontrivial' if multi else 'check:single-failure')
        self.w.count('check:run')
        self.w.note_state((fr.mode, [len(l) if l else None for l in fr.leaves], [f[0] for f in fr.failures],
                           type(fr.over[2]).__name__ if fr.over else None))
        records = self.records[first:]
        if fr.over is None and fr.at < len(fr.elements):
            self.bad('not-attempted', f'{what}: ended with {o!r} although {fr.next_leaf()} was not run')
        if fr.mode == 'none':
            if fr.over is None:
                return self.results(fr, o, what, a)
            if o.ok:
                self.bad('exception-lost', f'{what}: returned {o!r} although it failed with {fr.over}')
            if fr.over[2] is not None and o.exc is not fr.over[2]:
                self.bad('exception-changed', f'{what}: raised {o!r} instead of {fr.over[2]!r}')
            return
        if fr.over is not None and fr.over[2] is not None and not isinstance(fr.over[2], Exception) or \
                fr.over is not None and type(fr.over[2]).__name__ == 'BdbQuit':
            if o.ok:
                self.bad('interrupt-ignored', f'{what}: returned {o!r} although it was ended by {fr.over[2]!r}')
            if isinstance(fr.over[2], GeneratorExit):
                if o.exc is not fr.over[2]:
                    self.bad('exception-changed', f'{what}: raised {o!r} instead of {fr.over[2]!r}')
            elif not isinstance(o.exc, (SystemExit, KeyboardInterrupt)):
                self.bad('interrupt-ignored', f'{what}: raised {o!r} although it was ended by {fr.over[2]!r}')
            if fr.debugged:
                self.bad('wrong-debugging', f'{what}: the debugger was called for {fr.debugged}, {fr.over[2]!r} is an interrupt')
            return
        if not o.ok:
            self.bad('exception-not-handled', f'{what}: raised {o!r}')
        if fr.mode == 'force':
            self.results(fr, o, what, a)
            self.reports(fr, what, records)
            return
        # automatic debugging
        if fr.over is None:
            if fr.debugged:
                self.bad('wrong-debugging', f'{what}: the debugger was called for {fr.debugged}, nothing failed')
            return self.results(fr, o, what, a)
        if o.value is not None:
            self.bad('wrong-result', f'{what}: returned {o.value!r} after a failure')
        if len(fr.debugged) != 1:
            self.bad('wrong-debugging', f'{what}: the debugger was called {len(fr.debugged)} times after {fr.over}')
        if fr.over[2] is not None and fr.debugged[0] is not fr.over[2] and \
                fr.debugged[0] is not fr.over[2].__traceback__:
            self.bad('wrong-debugging', f'{what}: the debugger got {fr.debugged[0]!r} instead of {fr.over[2]!r}')
        if fr.over[2] is None and not isinstance(fr.debugged[0], BaseException):
            self.bad('wrong-debugging', f'{what}: the debugger got {fr.debugged[0]!r}')

    def shape(self, m, name, values):
        """results of a section are nested like the section"""
        pr = self.projects[m]
        it = iter(values)

        def of(sub):
            if isinstance(sub, dict):
                return [of(v) for v in sub.values()]
            out = []
            for x in sub:
                if isinstance(x, dict):
                    out.extend(of(v) for v in x.values())
                else:
                    out.append(next(it))
            return out
        cur = pr['tree']
        for part in name.split('.'):
            if isinstance(cur, dict) and part in cur:
                cur = cur[part]
            elif isinstance(cur, list) and any(isinstance(x, dict) and part in x for x in cur):
                cur = [x[part] for x in cur if isinstance(x, dict) and part in x][0]
            else:
                return values[0]
        return of(cur)

    def results(self, fr, o, what, a):
        failed = [f[0] for f in fr.failures]
        it = iter(fr.results)
        want = [self.shape(a['m'], e, next(it)) for e, ok in zip(fr.elements, fr.flags) if ok]
        if len(fr.elements) == 1:
            want = want[0] if want else []
        if not same(o.value, want):
            self.bad('wrong-result', f'{what} (failed: {failed}): returned {o.value!r}, expected {want!r}')
        self.w.count('check:result')

    def reports(self, fr, what, records):
        if not fr.failures:
            return
        last = records[-1] if records else ''
        toks = [f[1] for f in fr.failures if f[1]]
        got = [t for t in re.findall(r'<E\d+>', last) if t in toks]
        dedup = [t for i, t in enumerate(got) if i == 0 or got[i - 1] != t]
        if dedup != toks:
            self.bad('wrong-report', f'{what}: the exceptions of {[(f[0], f[1]) for f in fr.failures]} are expected in this '
                     f'order in the last error record, it has {dedup}: {last[:1500]}')
        for e, t, exc in fr.failures:
            if e not in last:
                self.bad('wrong-report', f'{what}: {e} is not in the report: {last[:1500]}')
            if t:
                single = [r for r in records[:-1] if t in r]
                if len(single) != 1 or e not in single[0]:
                    # the same exception may be reported before by a run inside of this one
                    if len([r for r in single if e in r]) < 1:
                        self.bad('wrong-report', f'{what}: {t} of {e} is reported when it failed as {single}')
        # each path is reported with its own exception
        for i, (e, t, exc) in enumerate(fr.failures):
            if not t:
                continue
            at = last.index(t)
            heads = [(last.rfind(x, 0, at), x) for x in {f'running {f[0]}:' for f in fr.failures}]
            best = max(heads)
            if best[0] >= 0 and best[1] != f'running {e}:':
                self.bad('wrong-report', f'{what}: {t} of {e} is reported as {best[1]}')
        self.w.count('check:report')


def same(a, b):
    if isinstance(b, list) and isinstance(a, list) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return a is b or type(a) is type(b) and not isinstance(b, BaseException) and a == b


CLASS_INIT = '        simrt.ev("init", w=w)\n'


def run(w):
    import pdb
    sim = Sim(w)
    for mod, items in w.case['modules'].items():
        text = P.module_src(mod, items)
        # constructors are user code which may fail, too
        text = re.sub(r'(    def __init__\(self, [^\n]*\n)', lambda m: m.group(1) + CLASS_INIT, text)
        w.write(f'src/{mod}.py', text)
    for pr in w.case['projects']:
        P.write_project(w, w.case, pr)
    for m, p, _, spec in sim.nodes:
        w.write(P.config_rel(sim.projects[m], p), f'w = {f"{m}.{p}"!r}\n')
    real_pm, pdb.post_mortem = pdb.post_mortem, lambda t=None: sim.debugger(t)
    for m, pr in sim.projects.items():
        kw = {'force': {'force_continue': True}, 'pdb': {'auto_pdb': sim.debugger}, 'pdbtrue': {'auto_pdb': True}}
        sim.pms[m] = w.must('constructing', P.make_manager, w, w.case, pr, **kw.get(pr['mode'], {}))
    for m in sim.projects:
        w.must('loading', sim.pms[m].load)
    sys.stdout = io.StringIO()
    sys.stdin = io.StringIO()
    for pc, op in enumerate(w.case['ops']):
        CLOCK.advance(1.0)
        w.log(pc, op)
        k = op['op']
        w.count('op:' + k)
        if k == 'mode':
            sim.set_mode(op['m'], op['v'])
        elif k == 'reload':
            w.must('reloading', sim.pms[op['m']].reload)
        elif k == 'stdout':
            from pyfileconf import options
            options.set_option('log_stdout', op['v'])
        elif k == 'both':
            from pyfileconf import PipelineManager
            o = w.call(PipelineManager, w.path('both'), name='both', force_continue=True, auto_pdb=True)
            if o.ok or not isinstance(o.exc, ValueError):
                raise Violation('both-modes', f'a manager with both modes: {o!r}')
        else:
            sim.events = 0
            sim.faults = op['faults']
            o = w.call(sim.run, op['a'])
            if w.broken:
                raise w.broken
            w.log('  ->', 'ok' if o.ok else type(o.exc).__name__)
    pdb.post_mortem = real_pm
