"""C05: run and load tracking unwinds exactly, whatever happens"""
import os
import random

from ..seams import DISK, CLOCK
from ..world import Violation, HarnessError, raise_fault
from . import proj as P
from . import conf as C

RUNS = {'quick': 1500, 'thorough': 60000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-3 generated projects whose functions, classes and config files themselves run, get, call, read, '
        'update, reset, refresh and reload other items, catch what these raise or not, and advance iterations started '
        'elsewhere; 4-25 such operations at the top, with exceptions and interrupts at seeded calls, unreadable or '
        'invalid files and disk errors; non-trivial: user code was executed at nesting depth two or more')
STATES = 'hash of (stack of running items and executing files) at every call of user code'
ASSUMPTIONS = ['interrupts arrive while user code or file I/O runs, not between two bytecodes of pyfileconf']
FAULTS = ['error', 'value', 'kbi', 'exit', 'key', 'attr', 'genexit', 'memory', 'recursion', 'quit']


# ---------------------------------------------------------------- generation

def gen_proj(rng, name):
    mod = f'um_{name}'
    items = []
    for i in range(rng.randint(1, 3)):
        items.append({'k': 'f', 'n': f'f{i}', 'args': args(rng)})
    for i in range(rng.randint(0, 2)):
        items.append({'k': 'c', 'n': f'K{i}', 'args': args(rng)})
    names = [it['n'] for it in items]
    pr = {'name': name, 'folder': name, 'tree': C.gen_paths(rng, names, rng.randint(2, 5))}
    mods = {mod: items}
    if rng.random() < 0.4:
        mods[f'umd_{name}'] = [{'k': 'd', 'n': f'D_{name}', 'args': args(rng)}]
        pr['spec'] = [{'name': 'ex', 'class': f'D_{name}', 'tree': {'s0': ['d0', 'd1'][:rng.randint(1, 2)]}}]
    for it in items:
        it['n'] = it['n'] + '_' + name
    ren(pr['tree'], name)
    return mods, pr


def ren(t, name):
    for k, v in t.items():
        if isinstance(v, dict):
            ren(v, name)
        else:
            t[k] = [f'{x}_{name}' if isinstance(x, str) else x for x in v]
            for x in t[k]:
                if isinstance(x, dict):
                    ren(x, name)


def args(rng):
    return [{'n': n, 'd': 'None', 't': ''} for n in ['w', 'a', 'b'][:rng.randint(2, 3)]]


def gen_script(rng, case, rank, in_file, n_gens):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        a = gen_action(rng, case, rank, in_file, n_gens)
        if a:
            a['catch'] = rng.random() < 0.55
            out.append(a)
    return out


def gen_action(rng, case, rank, in_file, n_gens):
    """something which refers only to lower nodes, or, where recursion is allowed, runs any"""
    nodes = case['nodes']
    k = rng.random()
    if case['recursion'] and not in_file and rng.random() < 0.35:
        # the depth is bounded by the harness
        i = rng.choice([rank, rng.randrange(len(nodes))]) if rank < len(nodes) else rng.randrange(rank)
        return {'do': rng.choice(['run', 'run', 'run', 'runview', 'call', 'get', 'update', 'attr']), 't': i}
    if k < 0.08:
        return {'do': 'raise', 'x': rng.choice(FAULTS)}
    if k < 0.14 and n_gens:
        return {'do': 'gen_next', 'g': rng.randrange(n_gens)}
    if rank == 0:
        return None
    lo = rng.randrange(max(0, rank - 4), rank)
    if in_file:
        do = rng.choice(['attr', 'attr', 'attr', 'attr', 'mention', 'call', 'item', 'get', 'run', 'getview'])
    else:
        do = rng.choice(['attr', 'attr', 'run', 'run', 'run', 'runview', 'call', 'item', 'get', 'getview', 'update', 'sel',
                         'refresh', 'reset', 'run_many', 'product', 'reload', 'section', 'mention', 'dotted', 'iter_new'])
    a = {'do': do, 't': lo}
    if do == 'run_many':
        m = nodes[lo][0]
        a['ts'] = [i for i in (rng.randrange(rank) for _ in range(rng.randint(1, 3))) if nodes[i][0] == m] or [lo]
    if do == 'product':
        a['n'] = rng.randint(1, 3)
        a['u'] = rng.randrange(rank)
        if nodes[a['u']][0] != nodes[lo][0]:
            a['u'] = lo
    if do == 'iter_new':
        a['g'] = rng.randrange(max(1, n_gens))
    if do == 'section':
        m, p = nodes[lo][:2]
        sec = p.rsplit('.', 1)[0]
        low = [i for i, (mm, pp, _, _) in enumerate(nodes) if mm == m and pp.startswith(sec + '.')]
        if max(low) >= rank or nodes[lo][3]:
            a['do'] = 'run'
        else:
            a['s'] = sec
    return a


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    case = {'modules': {}, 'projects': []}
    for name in ('pm', 'pm2', 'other')[:n]:
        mods, pr = gen_proj(rng, name)
        case['modules'].update(mods)
        case['projects'].append(pr)
        if rng.random() < 0.15:
            pr['force_continue'] = True
    if n > 1 and rng.random() < 0.2:
        case['projects'][1]['folder'] = 'pm/nested'
    kinds = {it['n']: it for m in case['modules'].values() for it in m}
    nodes = [[pr['name'], p, [a['n'] for a in kinds[nm]['args']], spec, nm] for pr in case['projects']
             for p, nm, spec in C.all_items(pr)]
    rng.shuffle(nodes)
    # the second half of the order is mostly free
    case['names'] = [x.pop() for x in nodes]
    case['nodes'] = nodes
    n_gens = rng.choice([0, 1, 2])
    case['n_gens'] = n_gens
    case['recursion'] = rng.random() < 0.3
    scripts = {}
    for i, (m, p, _, _) in enumerate(nodes):
        scripts[f'{m}.{p}'] = gen_script(rng, case, i, False, n_gens)
        scripts[f'cfg:{m}.{p}'] = gen_script(rng, case, i, True, 0) if rng.random() < 0.7 else []
    for pr in case['projects']:
        if rng.random() < 0.3:
            pr['sections'] = rng.sample(C.sections_of(pr), 1)
            for s in pr['sections']:
                scripts[f"cfg:{pr['name']}.{s}.section"] = []
    case['scripts'] = scripts
    ops = []
    for _ in range(rng.randint(4, 25 if tier == 'thorough' else 14)):
        k = rng.random()
        if k < 0.06:
            i = rng.randrange(len(nodes))
            ops.append({'op': 'broken', 't': i, 'how': rng.choice(['syntax', 'name', 'tuple', 'import', 'exit', 'bad_default']),
                        'then': rng.choice(['reload', 'get', 'run', 'refresh', 'reset', 'attr', 'run'])})
        elif k < 0.1 and n_gens:
            ops.append({'op': 'gen_close', 'g': rng.randrange(n_gens)})
        elif k < 0.13:
            ops.append({'op': 'restart'})
        else:
            a = gen_action(rng, case, len(nodes), False, n_gens)
            if a is None or a['do'] == 'raise':
                continue
            op = {'op': 'do', 'a': a}
            if rng.random() < 0.4:
                op['fault'] = {'at': rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), 'x': rng.choice(FAULTS),
                               'when': rng.choice(['before', 'after'])}
            elif rng.random() < 0.12:
                op['io'] = {'kind': rng.choice(['EIO', 'EACCES', 'EMFILE']), 'among': 'r', 'at': rng.randint(1, 12),
                            'when': rng.choice(['before', 'after']), 'span': rng.choice([1, 1, 3])}
            ops.append(op)
    case['ops'] = ops
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


# ---------------------------------------------------------------- running

class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.projects = {pr['name']: pr for pr in self.case['projects']}
        self.nodes = self.case['nodes']
        self.index = {f'{m}.{p}': i for i, (m, p, _, _) in enumerate(self.nodes)}
        self.items = P.Items(self.case)
        self.pms = {}
        self.shadow = []          # ('run', path) and ('load', rel path, dependent), and markers ('set', {paths})
        self.allowed = set()      # (dependent, item) which may be recorded
        self.required = {}        # (dependent, item) -> why, must be recorded (and refreshed)
        self.gens = {}
        self.value = 100
        self.events = 0
        self.fault = None
        w.hook = self.hook

    # -- what is going on according to the harness
    def frames(self):
        return [f for f in self.shadow if f[0] != 'set']

    def running(self):
        r = [f[1] for f in self.shadow if f[0] == 'run']
        return r[-1] if r else None

    def loading(self):
        r = [f[1] for f in self.shadow if f[0] == 'load']
        return r[-1] if r else None

    def actual(self, all_frames=False):
        from pyfileconf import context
        out = []
        for f in context.stack:
            kind = f.action.value
            if kind == 'run':
                out.append(('run', f.section_path.path_str))
            elif kind == 'load_file_execute':
                out.append(('load', f.section_path.path_str))
            elif all_frames:
                out.append((kind, f.section_path.path_str))
        return out

    def compare(self, what):
        from pyfileconf import context
        want = self.frames()
        got = self.actual()
        if got != want:
            raise Violation('wrong-stack', f'{what}: pyfileconf says {got} is going on, really it is {want}')
        run, load = self.running(), self.loading()
        if context.currently_running_section_path_str != run:
            raise Violation('wrong-running-item', f'{what}: {context.currently_running_section_path_str} instead of {run}')
        if bool(context.file_is_currently_being_loaded) != (load is not None):
            raise Violation('wrong-loading-state', f'{what}: {context.file_is_currently_being_loaded}, files {load}')
        self.w.count('check:stack')

    # -- user code
    def hook(self, site, args):
        w = self.w
        if w.broken:
            return {} if site.startswith('cfgv:') else 0
        try:
            return self._hook(site, args)
        except Violation as v:
            # must not be swallowed by what is being run
            w.broken = v
            raise SystemExit('violation')

    def _hook(self, site, args):
        w = self.w
        depth = len(self.shadow)
        top = self.shadow[-1] if self.shadow else None
        if site.startswith('cfgv:'):
            path = site[5:]
            if top and top[0] == 'set' and path in top[1] and not (
                    top[2] and self.actual()[:-1] == self.frames()):
                # (the steps of an iteration also update items before running them)
                self.shadow.append(('run', path))
                self.use(path, False, False)
            self.shadow.append(('load', path))
            key = 'cfg:' + path
        else:
            path = args['w']
            if top and top[0] == 'set' and path in top[1]:
                self.shadow.append(('run', path))
            key = path
        try:
            self.compare(f'in {key}')
            n = self.events
            self.events += 1
            if len(self.frames()) >= 2:
                w.count('nontrivial')
            w.note_state(self.frames())
            f = self.fault
            w.log('  ' + '  ' * len(self.frames()) + key)
            if f and f['at'] == n and f['when'] == 'before':
                w.count(f"fault:user:{f['x']}")
                w.log('  fault', f['x'])
                raise_fault(f['x'], key)
            got = None
            if self.events < 40 and len(self.frames()) < 12:
                for a in self.case['scripts'].get(key, ()):
                    if a['catch']:
                        try:
                            r = self.do(a)
                        except Violation:
                            raise
                        except BaseException as e:
                            if w.broken:
                                raise w.broken
                            w.log('  ' + '  ' * len(self.frames()) + f'{key} caught {type(e).__name__}')
                            r = None
                    else:
                        r = self.do(a)
                    if a['do'] == 'attr' and r is not None:
                        got = r
            if f and f['at'] == n and f['when'] == 'after':
                w.count(f"fault:user:{f['x']}")
                w.log('  fault', f['x'])
                raise_fault(f['x'], key)
            self.compare(f'at the end of {key}')
            if site.startswith('cfgv:'):
                return {'got': got}
            return (path, got if isinstance(got, int) else 0)
        finally:
            del self.shadow[depth:]

    def use(self, item, run=True, load=True, mention=False):
        """an access to an item is made now: who may depend on it"""
        deps = [self.running(), self.loading()]
        for d in deps:
            if d is not None and d != item:
                self.allowed.add((d, item))
        return [d for d, yes in zip(deps, (run, load)) if yes and d is not None and d != item]

    def need(self, deps, item, why):
        for d in deps:
            self.required.setdefault((d, item), why)

    # -- things which user code and the top level do
    def do(self, a):
        before = self.actual(True)
        depth = len(self.shadow)
        try:
            r = self._do(a)
        except BaseException as e:
            if isinstance(e, (Violation, HarnessError)):
                raise
            if self.w.broken:
                raise self.w.broken
            del self.shadow[depth:]
            self.same(before, a, e)
            raise
        del self.shadow[depth:]
        self.same(before, a, None)
        return r

    def same(self, before, a, e):
        after = self.actual(True)
        if after != before:
            raise Violation('stack-not-unwound', f'{a} {"raised " + type(e).__name__ if e else "returned"}: {before} before '
                            f'and {after} after')

    def view(self, full):
        from pyfileconf import Selector
        v = Selector()
        for part in full.split('.'):
            v = getattr(v, part)
        return v

    def fresh(self):
        self.value += 1
        return self.value

    def marker(self, paths, updates=False):
        self.shadow.append(('set', frozenset(paths), updates))

    def _do(self, a):
        do = a['do']
        if do == 'raise':
            self.w.count(f"fault:user:{a['x']}")
            raise_fault(a['x'], 'script')
        if do == 'gen_next':
            g = self.gens.get(a['g'])
            if g is None:
                return None
            gen, paths = g
            for x in paths:
                self.use(x)
            self.marker(paths, True)
            try:
                return next(gen)
            except StopIteration:
                self.gens.pop(a['g'], None)
                return None
            except ValueError as e:
                if 'already executing' in str(e):
                    return None
                raise
            except BaseException:
                self.gens.pop(a['g'], None)
                raise
        m, p, args, spec = self.nodes[a['t']]
        full = f'{m}.{p}'
        pm = self.pms[m]
        self.w.count('op:' + do)
        arg = args[1]
        if do in ('run', 'runview'):
            d = self.use(full, True, False)
            target = p if do == 'run' else self.view(full)
            self.marker([full])
            r = pm.run(target)
            if not self.projects[m].get('force_continue'):
                self.need(d, full, 'ran it')
            return r
        if do == 'run_many':
            fulls = [f'{m}.{self.nodes[i][1]}' for i in a['ts']]
            ds = [self.use(f, True, False) for f in fulls]
            self.marker(fulls)
            r = pm.run([self.nodes[i][1] for i in a['ts']])
            if not self.projects[m].get('force_continue'):
                for d, f in zip(ds, fulls):
                    self.need(d, f, 'ran it')
            return r
        if do == 'section':
            fulls = [f'{m}.{pp}' for mm, pp, _, _ in self.nodes if mm == m and pp.startswith(a['s'] + '.')]
            ds = [self.use(f, True, False) for f in fulls]
            self.marker(fulls)
            r = pm.run(a['s'])
            if not self.projects[m].get('force_continue'):
                for d, f in zip(ds, fulls):
                    self.need(d, f, 'ran its section')
            return r
        if do in ('product', 'iter_new'):
            u = a.get('u', a['t'])
            um, up, uargs, _ = self.nodes[u]
            ups = [{'section_path_str': up, uargs[1]: self.fresh()} for _ in range(a.get('n', 2))]
            fulls = [full]
            for x in (full, f'{um}.{up}'):
                self.use(x)
            if do == 'iter_new':
                self.marker(())
                gen = pm.run_product_gen(p, ups)
                self.gens[a['g']] = (gen, fulls)
                return None
            d = self.use(full, True, False)
            self.marker(fulls, True)
            r = pm.run_product(p, ups)
            if not self.projects[m].get('force_continue'):
                self.need(d, full, 'ran it')
            return r
        self.marker(())
        if do == 'attr':
            d = self.use(full)
            v = self.view(full)
            r = v.keywords[arg] if self.is_func(full) else getattr(v, arg)
            self.need(d, full, 'read an attribute of it')
            return r if isinstance(r, int) else None
        if do == 'mention':
            self.use(full)
            self.view(full)
        elif do == 'call':
            d = self.use(full)
            r = self.view(full)()
            self.need(d, full, 'called it')
        elif do == 'item':
            d = self.use(full)
            self.view(full).item
            self.need(d, full, 'took it')
        elif do in ('get', 'getview'):
            d = self.use(full, True, False)
            pm.get(p if do == 'get' else self.view(full))
            self.need(d, full, 'got it')
        elif do == 'dotted':
            d = self.use(full, True, False)
            obj = pm
            for part in p.split('.'):
                obj = getattr(obj, part)
            self.need(d, full, 'got it')
        elif do == 'update':
            pm.update(section_path_str=p, **{arg: self.fresh()})
        elif do == 'sel':
            self.use(full)
            setattr(self.view(full), arg, self.fresh())
        elif do == 'refresh':
            pm.refresh(p)
        elif do == 'reset':
            pm.reset(p)
        elif do == 'reload':
            pm.reload()
        else:
            raise HarnessError(do)

    def is_func(self, full):
        name = self.case['names'][self.index[full]]
        return self.items.by_name[name]['k'] == 'f'

    # -- the record of dependencies
    def check_deps(self, what):
        from pyfileconf import context
        rec = {(str_path(d), on) for on, ds in context.config_dependencies.items() for d in ds}
        forced = {(str_path(d), on) for on, ds in context.force_update_dependencies.items() for d in ds}
        extra = (rec | forced) - self.allowed
        if extra:
            raise Violation('dependency-of-nothing', f'{what}: recorded {sorted(extra)[:3]} (dependent, item), but the '
                            f'dependent was not running or executing when the item was used')
        for pair, why in sorted(self.required.items()):
            if pair not in rec or pair not in forced:
                raise Violation('dependency-missing', f'{what}: {pair[0]} {why}: {pair[1]} ({pair in rec}, {pair in forced})')
        self.w.count('check:dependencies')


def str_path(sp):
    return sp if isinstance(sp, str) else sp.path_str


def file_text(sim, full, args, spec):
    lines = ['import simrt', f'_r = simrt.cfgv({full!r})', f'w = {full!r}']
    for i, a in enumerate(args[1:]):
        lines.append(f"{a} = _r['got']" if i == 0 else f'{a} = None')
    return '\n'.join(lines) + '\n'


def run(w):
    w.broken = None
    st = w.state
    sim = Sim(w)
    if st['incarnation'] == 0:
        P.write_modules(w, w.case)
        st['pc'] = 0
        for pr in w.case['projects']:
            P.write_project(w, w.case, pr)
            for s in pr.get('sections', ()):
                rel = P.config_rel(pr, s + '.section')
                w.write(rel, f"import simrt\n_r = simrt.cfgv({pr['name'] + '.' + s + '.section'!r})\n")
        for i, (m, p, args, spec) in enumerate(sim.nodes):
            w.write(P.config_rel(sim.projects[m], p), file_text(sim, f'{m}.{p}', args, spec))
    for m, pr in sim.projects.items():
        kw = {'force_continue': True} if pr.get('force_continue') else {}
        sim.pms[m] = w.must('constructing', P.make_manager, w, w.case, pr, **kw)
    for m in sim.projects:
        top(w, sim, 'loading', lambda: sim.pms[m].load(), must=True)
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(1.0)
        w.log(st['pc'], op)
        step(w, sim, op)
        st['pc'] += 1
        if op['op'] == 'restart':
            w.restart()


def top(w, sim, what, fn, must=False):
    sim.events = 0
    o = w.call(fn)
    if w.broken:
        raise w.broken
    w.log('  ->', 'ok' if o.ok else type(o.exc).__name__)
    if must and not o.ok:
        raise Violation('unexpected-exception:loading', repr(o))
    del sim.shadow[:]
    if sim.actual(True):
        raise Violation('stack-not-unwound', f'{what}: {sim.actual(True)} although nothing is going on')
    sim.compare(what)
    sim.check_deps(what)
    return o


def step(w, sim, op):
    k = op['op']
    if k == 'do':
        sim.fault = op.get('fault')
        if op.get('io'):
            DISK.begin(op['io'])
        try:
            top(w, sim, f"after {op['a']}", lambda: sim.do(op['a']))
        finally:
            sim.fault = None
            if op.get('io'):
                w.account_faults()
                DISK.begin(None)
    elif k == 'gen_close':
        g = sim.gens.pop(op['g'], None)
        if g:
            top(w, sim, 'closing an iteration', g[0].close)
    elif k == 'broken':
        m, p, args, spec = sim.nodes[op['t']]
        rel = P.config_rel(sim.projects[m], p)
        text = w.read(rel)
        extra = {'syntax': 'def (:\n', 'name': 'x_ = undefined_name\n', 'tuple': 'x1_, x2_ = 1, 2\n',
                 'import': 'import no_such_module_x\n', 'exit': "raise SystemExit('x')\n",
                 'bad_default': 'x_: undefined_type = 5\n'}[op['how']]
        w.count('fault:file:' + op['how'])
        w.write(rel, text + extra)
        if op['then'] in ('run', 'get', 'attr'):
            top(w, sim, 'reloading', lambda: sim.do({'do': 'reload', 't': op['t']}))
        top(w, sim, f'{op}', lambda: sim.do({'do': op['then'], 't': op['t']}))
        w.write(rel, text)
        top(w, sim, 'reloading the repaired project', lambda: sim.do({'do': 'reload', 't': op['t']}))
