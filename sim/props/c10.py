"""C10: plugins are told of every real change exactly once, before and after"""
import random

from ..seams import CLOCK
from ..world import Violation, HarnessError, raise_fault, UserError
from . import proj as P
from . import conf as C
from . import c04 as G

RUNS = {'quick': 900, 'thorough': 60000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-3 generated projects whose config files may read other items, 1-3 plugins which record, raise, add '
        'and react, and 5-40 operations (updates, batches, assignments, resets, refreshes, edits, runs, iterations, '
        'reloads, restarts) including ones which change nothing; non-trivial: at least one change hook was called')
STATES = 'hash of (configuration hooks called, effective values of all items) after each operation'
ASSUMPTIONS = ['items which read others, or did before, get no transient updates',
               'the graph of references is acyclic', 'hooks called during a reload are not judged for its own items']
FAULTS = ['error', 'value', 'kbi', 'exit', 'key', 'attr', 'assert', 'oserror']


def gen(rng, tier):
    case = C.gen_world(rng, n_managers=rng.choice([1, 2, 2, 3]), names=('pm', 'pm2', 'other'),
                       n_items=rng.randint(2, 4))
    refs = rng.random() < 0.7
    fresh = iter(range(100, 100000))
    special = not refs and rng.random() < 0.5
    kinds = {it['n']: it['k'] for mod in case['modules'].values() for it in mod}
    nodes = [(pr['name'], p, C.item_args(case, n), kinds[n]) for pr in case['projects'] for p, n, _ in C.all_items(pr)]
    rng.shuffle(nodes)
    files = []
    for i, (m, p, args, k) in enumerate(nodes):
        lower = nodes[max(0, i - 3):i] if refs else []
        files.append([m, p, {a: G.gen_expr(rng, lower, fresh) for a in args}])
    case['files'] = files
    for pr in case['projects']:
        if rng.random() < 0.25:
            pr['force_continue'] = True
    case['plugins'] = [{'pre': rng.choice(['first', 'last', '']), 'post': rng.choice(['first', 'last', ''])}
                       for _ in range(rng.choice([1, 1, 2]))]
    case['warm'] = rng.random() < 0.5
    ops = []
    for _ in range(rng.randint(5, 40 if tier == 'thorough' else 22)):
        op = gen_op(rng, case, nodes, fresh, special)
        if op is not None:
            ops.append(op)
    case['ops'] = ops
    case['see_salt'] = rng.randrange(1 << 20)
    case['hash_salt'] = rng.randrange(1, 1 << 20)
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


def gen_op(rng, case, nodes, fresh, special=False):
    m, p, args, kind = nodes[min(rng.randrange(len(nodes)), rng.randrange(len(nodes)))]
    if not args:
        return None
    k = rng.random()
    a = rng.choice(args)

    def value():
        return C.special(rng, fresh, C.WHOLE) if special and rng.random() < 0.3 else next(fresh)
    if k < 0.34:
        vals = {a: next(fresh)}
        for b in args:
            if b != a and rng.random() < 0.3:
                vals[b] = next(fresh)
        if special and rng.random() < 0.4:
            vals[a] = C.special(rng, fresh, C.WHOLE)
        op = {'op': 'update', 'm': m, 'p': p, 'args': vals, 'same': rng.choice([False] * 8 + [True, 'like']),
              'persist': rng.random() < 0.75, 'how': rng.choice(['kw', 'd_', 'both', 'sel', 'batch', 'updater', 'gen'])}
        r = rng.random()
        if r < 0.18:
            op['raise'] = [m, p, rng.choice(FAULTS)]
        elif r < 0.26:
            m2, p2, _, _ = rng.choice(nodes)
            op['raise'] = [m2, p2, rng.choice(FAULTS)]
        elif r < 0.40:
            b = rng.choice(args)
            op['add'] = {'args': {b: next(fresh)}, 'how': rng.choice(['return', 'inplace'])}
        elif r < 0.5:
            m2, p2, args2, _ = rng.choice(nodes)
            if args2 and [m2, p2] != [m, p]:
                op['react'] = {'m': m2, 'p': p2, 'args': {rng.choice(args2): next(fresh)}}
        elif r < 0.55:
            op['stop'] = rng.choice(FAULTS)
        return op
    if k < 0.44:
        ups = []
        for _ in range(rng.randint(0, 4)):
            m2, p2, args2, _ = rng.choice(nodes)
            if args2:
                ups.append({'m': m2, 'p': p2, 'args': {rng.choice(args2): value()}, 'same': rng.random() < 0.2})
        op = {'op': 'batch', 'ups': ups, 'how': rng.choice(['list', 'tuple', 'gen']), 'one': m if rng.random() < 0.4 else None}
        if op['one']:
            ups[:] = [u for u in ups if u['m'] == m]
        r = rng.random()
        if r < 0.2 and ups:
            u = rng.choice(ups)
            op['raise'] = [u['m'], u['p'], rng.choice(FAULTS)]
        elif r < 0.5:
            m2, p2, args2, _ = rng.choice([n for n in nodes if op['one'] in (None, n[0])])
            if args2:
                op['add'] = {'m': m2, 'p': p2, 'args': {rng.choice(args2): next(fresh)}}
        return op
    if k < 0.62:
        op = {'op': rng.choice(['refresh', 'reset']), 'm': m, 'p': p}
        if rng.random() < 0.25:
            op['raise'] = [m, p, rng.choice(FAULTS)]
        return op
    if k < 0.64:
        return {'op': 'reset_section', 'm': m, 's': p.rsplit('.', rng.randint(1, p.count('.')))[0]}
    if k < 0.72:
        return {'op': 'edit', 'm': m, 'p': p, 'arg': a, 'e': ['lit', value()],
                'then': rng.choice(['refresh', 'reset', 'reload']), 'same': rng.random() < 0.2}
    if k < 0.75:
        return {'op': 'reload', 'm': m}
    if k < 0.77:
        return {'op': 'restart'}
    if k < 0.90:
        here = [n for n in nodes if n[0] == m]
        op = {'op': 'run', 'm': m, 'ps': [rng.choice(here)[1] for _ in range(rng.choice([1, 1, 2, 3]))],
              'how': rng.choice(['str', 'str', 'list', 'view', 'views'])}
        if rng.random() < 0.4:
            op['add'] = {'how': rng.choice(['return', 'return_list', 'return_view', 'inplace']),
                         'ps': [rng.choice(here)[1] for _ in range(rng.randint(1, 2))]}
        if rng.random() < 0.4:
            op['more'] = rng.choice(['return', 'inplace'])
        if rng.random() < 0.3:
            op['fail'] = [rng.choice(here)[1], rng.choice(['error', 'value', 'key'])]
        return op
    if k < 0.96:
        return {'op': 'iter', 'm': m, 'p': p, 'arg': a, 'vals': [value() for _ in range(rng.randint(1, 3))],
                'gen': rng.random() < 0.4}
    return {'op': 'see', 'm': m, 'p': p, 'how': rng.choice(C.HOWS)}


# ---------------------------------------------------------------- plugins

class Recorder:
    """what one plugin was told"""

    def __init__(self, ctl, i):
        self.ctl = ctl
        self.i = i
        self.events = []

    def add(self, *ev):
        self.events.append(ev)


def make_plugin(spec, ctl, i):
    from pyfileconf import hookimpl

    def mark(how):
        return {'first': hookimpl(tryfirst=True), 'last': hookimpl(trylast=True), '': hookimpl}[how]
    rec = Recorder(ctl, i)

    class Plugin:
        @mark(spec['pre'])
        def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
            key = (manager.pipeline_manager_name, section_path_str)
            rec.add('pre', key, C.canon(dict(orig_config)), C.canon(dict(updates)))
            ctl.pre(i, key)

        @mark(spec['post'])
        def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
            key = (manager.pipeline_manager_name, section_path_str)
            rec.add('post', key, C.canon(dict(new_config)), C.canon(dict(updates)))
            ctl.post(i, key)

        @hookimpl
        def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
            rec.add('pre_update', (pm.name, section_path_str), dict(d_ or {}), dict(kwargs))
            return ctl.pre_update(i, d_, kwargs)

        @hookimpl
        def pyfileconf_post_update(self, pm, d_, section_path_str, kwargs):
            rec.add('post_update', (pm.name, section_path_str), dict(d_ or {}), dict(kwargs))

        @hookimpl
        def pyfileconf_pre_update_batch(self, pm, updates):
            rec.add('pre_batch')
            return ctl.pre_batch(i, updates)

        @hookimpl
        def pyfileconf_post_update_batch(self, pm, updates):
            rec.add('post_batch')

        @hookimpl
        def pyfileconf_pre_run(self, section_path_str_or_list, pm):
            rec.add('pre_run', pm.name)
            return ctl.pre_run(i, section_path_str_or_list)

        @hookimpl
        def pyfileconf_post_run(self, results, runner):
            rec.add('post_run', repr(results))
            return ctl.post_run(i, results)
    return Plugin(), rec


class Graph(G.Graph):
    """with values which can be compared"""

    def raw(self, key):
        return super().values(key)

    def values(self, key):
        return C.canon(C.real(self.raw(key)))


class Control:
    """what the plugins do in the current operation. Only the first plugin does something"""

    def __init__(self, w, d):
        self.w = w
        self.d = d
        self.recs = []
        self.plugins = []
        self.clear()

    def clear(self):
        self.op = {}
        self.raised = 0
        self.reacted = 0
        self.extra_results = 0
        for r in self.recs:
            r.events.clear()

    def pre(self, i, key):
        r = self.op.get('raise')
        if i == 0 and r and tuple(r[:2]) == key and not self.raised:
            self.raised += 1
            self.w.count('fault:plugin:' + r[2])
            self.w.log('  plugin raises', r[2], 'before change of', *key)
            raise_fault(r[2], 'plugin')

    def post(self, i, key):
        r = self.op.get('react')
        if i == 0 and r and key == (self.op['m'], self.op['p']) and not self.reacted:
            self.reacted += 1
            self.w.count('fault:plugin:react')
            self.d.pms[r['m']].update(section_path_str=r['p'], **r['args'])

    def pre_update(self, i, d_, kwargs):
        if i == 0 and self.op.get('stop'):
            self.raised += 1
            self.w.count('fault:plugin:' + self.op['stop'])
            raise_fault(self.op['stop'], 'plugin')
        add = self.op.get('add')
        if i == 0 and add:
            self.w.count('fault:plugin:add')
            if add['how'] == 'return':
                return dict(add['args'])
            for d in (d_, kwargs):
                if d is not None:
                    d.update(add['args'])

    def pre_batch(self, i, updates):
        add = self.op.get('add')
        if i == 0 and add and self.op['op'] == 'batch':
            self.w.count('fault:plugin:add')
            return [dict(section_path_str=add['p'] if self.op['one'] else f"{add['m']}.{add['p']}", **add['args'])]

    def pre_run(self, i, arg):
        add = self.op.get('add')
        if i == 0 and add and self.op['op'] == 'run':
            self.w.count('fault:plugin:add')
            if add['how'] == 'inplace':
                if isinstance(arg, list):
                    arg.extend(add['ps'])
                return None
            if add['how'] == 'return':
                return add['ps'][0]
            if add['how'] == 'return_view':
                return self.d.view(self.op['m'], add['ps'][0])
            return list(add['ps'])

    def post_run(self, i, results):
        more = self.op.get('more')
        if i == 0 and more and self.op['op'] == 'run':
            self.w.count('fault:plugin:add')
            self.extra_results += 1
            if more == 'return':
                return f'extra{self.extra_results}'
            if isinstance(results, list):
                results.append(f'extra{self.extra_results}')


# ---------------------------------------------------------------- running

def start(w, d, order):
    from pyfileconf.plugin import manager
    ctl = Control(w, d)
    for i, spec in enumerate(w.case['plugins']):
        plugin, rec = make_plugin(spec, ctl, i)
        manager.plm.register(plugin)
        ctl.recs.append(rec)
        ctl.plugins.append(plugin)
    for m in d.projects:
        pr = d.projects[m]
        kw = {'default_config_folder_name': pr['defaults']} if 'defaults' in pr else {}
        kw['force_continue'] = pr.get('force_continue', False)
        d.pms[m] = w.must('constructing', P.make_manager, w, w.case, pr, **kw)
    for m in order:
        w.must('loading', d.pms[m].load)
    return ctl


def warm(w, d, g):
    """everything which reads others is in use, so that it is refreshed when what it reads changes"""
    for key in g.items():
        if key in g.readers or w.case['warm']:
            w.must('getting', d.pms[key[0]].get, key[1])


def run(w):
    st = w.state
    d = C.Driver(w)
    if st['incarnation'] == 0:
        d.write()
        st['pc'] = 0
        g = st['graph'] = Graph(w.case)
        for key in g.items():
            w.write(d.rel(*key), G.file_text(d, g, key))
    g = st['graph']
    order = list(d.projects)
    random.Random(w.case['see_salt']).shuffle(order)
    ctl = start(w, d, order)
    if st['incarnation'] > 0:
        for m in d.projects:
            g.base.reload(m)
    warm(w, d, g)
    for r in ctl.recs:
        if r.events:
            raise Violation('hook-without-change', f'loading and getting items called hooks: {r.events[:3]}')
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(op.get('dt', 1.0))
        w.log(st['pc'], op)
        w.count('op:' + op['op'])
        if op['op'] == 'restart':
            st['pc'] += 1
            w.restart()
        ctl.clear()
        ctl.op = op
        step(w, d, g, ctl, op)
        n = sum(1 for e in ctl.recs[0].events if e[0] in ('pre', 'post'))
        if n:
            w.count('nontrivial')
        w.note_state((n, [(k, g.values(k)) for k in g.items()]))
        ctl.clear()
        rng = random.Random(f"{w.case['see_salt']}/{st['pc']}")
        keys = g.items()
        for key in rng.sample(keys, min(len(keys), rng.randint(0, 2))):
            d.check(*key, rng.choice(C.HOWS), g.values(key), f'after {op}')
        no_changes(ctl, f'looking after {op}')
        st['pc'] += 1
    for key in g.items():
        d.check(*key, 'run', g.values(key), 'at the end')
    for key in g.items():
        w.must('refresh', d.pms[key[0]].refresh, key[1])
        g.base.refresh(*key)
    for key in g.items():
        d.check(*key, 'get', g.values(key), 'after refreshing everything')


def no_changes(ctl, what):
    for r in ctl.recs:
        ev = [e for e in r.events if e[0] in ('pre', 'post')]
        if ev:
            raise Violation('hook-without-change', f'{what}: {ev[0]}')


class Steps:
    """the changes which an operation makes, one after the other, in the model"""

    def __init__(self, g):
        self.g = g
        self.before = {k: g.values(k) for k in g.items()}
        self.now = dict(self.before)
        self.least = {k: 0 for k in self.now}
        self.most = {k: 0 for k in self.now}

    def did(self, key):
        """the model was changed at key"""
        new = {k: self.g.values(k) for k in self.now}
        if new[key] != self.now[key]:
            for k, n in self.paths(key).items():
                self.most[k] += n
        for k in new:
            if new[k] != self.now[k]:
                self.least[k] += 1
        self.now = new

    def paths(self, key):
        """how many ways there are from key to each item which reads it"""
        out = {key: 1}
        for k in topo(self.g):
            if k == key:
                continue
            n = sum(out.get(s, 0) for s in self.g.sources(k))
            if n:
                out[k] = n
        return out


def topo(g):
    out, done = [], set()

    def visit(k):
        if k in done:
            return
        done.add(k)
        for s in sorted(g.sources(k)):
            visit(s)
        out.append(k)
    for k in g.items():
        visit(k)
    return out


def norm(g, key, values):
    """the arguments of the item, as far as the config has them"""
    return {a: values[a] for a in g.it(key).file if a in values}


def judge(ctl, steps, what, skip=()):
    """every plugin was told of the changes of steps and of nothing else"""
    g = steps.g
    for r in ctl.recs:
        per = {}
        for e in r.events:
            if e[0] in ('pre', 'post'):
                per.setdefault(e[1], []).append(e)
        for key, evs in per.items():
            if key in skip:
                continue
            if key not in steps.now:
                raise Violation('hook-for-unknown-item', f'{what}: {evs[0]}')
            cur = steps.before[key]
            if [e[0] for e in evs] != ['pre', 'post'] * (len(evs) // 2):
                raise Violation('hooks-not-in-pairs', f'{what}: {key} {[e[0] for e in evs]}, expected pairs of pre and post')
            for pre, post in zip(evs[::2], evs[1::2]):
                old, new = norm(g, key, pre[2]), norm(g, key, post[2])
                if old != cur:
                    raise Violation('wrong-old-values', f'{what}: before the change of {key} plugins were given {old}, '
                                    f'the values were {cur}')
                if post[2] == pre[2]:     # helper variables of the file are part of it
                    raise Violation('hook-without-change', f'{what}: {key} has {old} before and after ({len(evs) // 2} hooks, {steps.before[key]} -> {steps.now[key]}, updates {pre[3]})')
                for a, v in norm(g, key, post[3]).items():
                    if a in new and new[a] != v and key not in g.readers:
                        raise Violation('wrong-updates', f'{what}: {key} updates {post[3]} gave {new}')
                if norm(g, key, pre[3]) != norm(g, key, post[3]) and key not in g.readers:
                    raise Violation('wrong-updates', f'{what}: {key} updates {pre[3]} before and {post[3]} after')
                cur = new
            if cur != steps.now[key]:
                raise Violation('wrong-new-values', f'{what}: the last change of {key} was to {cur}, '
                                f'the values are {steps.now[key]}')
        for key in steps.now:
            if key in skip:
                continue
            n = len(per.get(key, ())) // 2
            if not steps.least[key] <= n <= steps.most[key]:
                want = steps.least[key] if steps.least[key] == steps.most[key] else f'{steps.least[key]}-{steps.most[key]}'
                kind = 'hook-not-called' if n < steps.least[key] else 'hook-called-too-often'
                raise Violation(kind, f'{what}: plugin {r.i} was told {n} times of a change of {key}, expected {want} '
                                f'({steps.before[key]} -> {steps.now[key]})')


def count_hooks(ctl, what, **want):
    for r in ctl.recs:
        for kind, n in want.items():
            got = sum(1 for e in r.events if e[0] == kind)
            if got != n:
                raise Violation('wrong-number-of-hooks', f'{what}: plugin {r.i}: {got} calls of {kind}, expected {n}')


def recover(w, d, g, op, keys):
    """after something raised halfway, refresh what may not have been refreshed"""
    for k in topo(g):
        if k in keys:
            w.must('refresh', d.pms[k[0]].refresh, k[1])
            g.base.refresh(*k)


def step(w, d, g, ctl, op):
    k = op['op']
    what = str(op)
    if k == 'see':
        d.check(op['m'], op['p'], op['how'], g.values((op['m'], op['p'])), 'looking')
        no_changes(ctl, what)
    elif k == 'update':
        update(w, d, g, ctl, op)
    elif k == 'batch':
        batch(w, d, g, ctl, op)
    elif k in ('refresh', 'reset'):
        single(w, d, g, ctl, op, (op['m'], op['p']), k)
    elif k == 'reset_section':
        steps = Steps(g)
        m, s = op['m'], op['s']
        w.must('reset of a section', d.pms[m].reset, s)
        keys = [x for x in g.items() if x[0] == m and x[1].startswith(s + '.')]
        for key in keys:
            g.base.reset(*key)
        # the order of items is not specified, so only that the changes are consistent
        before, steps.now = steps.now, {x: g.values(x) for x in steps.now}
        for x in steps.now:
            steps.least[x] = int(before[x] != steps.now[x])
            steps.most[x] = 50 if g.sources(x) else steps.least[x]
        judge(ctl, steps, what)
    elif k == 'edit':
        key = (op['m'], op['p'])
        w.must('getting', d.pms[key[0]].get, key[1])    # from now on its values are those of the file as it is now
        steps = Steps(g)
        if op['same']:
            g.exprs[key].setdefault(op['arg'], ['lit', g.it(key).file[op['arg']]])
        else:
            g.exprs[key] = {**g.exprs[key], op['arg']: op['e']}
        if op['then'] == 'reload':
            w.write(d.rel(*key), G.file_text(d, g, key))
            reload(w, d, g, ctl, key[0], steps)
        else:
            w.write(d.rel(*key), G.file_text(d, g, key))
            single(w, d, g, ctl, op, key, op['then'], steps)
    elif k == 'reload':
        reload(w, d, g, ctl, op['m'])
    elif k == 'run':
        do_run(w, d, g, ctl, op)
    elif k == 'iter':
        do_iter(w, d, g, ctl, op)
    else:
        raise HarnessError(k)


def do_call(w, d, op, key, args, persist):
    """-> outcome, number of update calls, number of batch calls"""
    m, p = key
    pm = d.pms[m]
    how = op['how']
    args = C.real(args)
    if how == 'sel' and len(args) == 1 and persist:
        a, v = next(iter(args.items()))
        return w.call(setattr, d.view(m, p), a, v), 1, 0
    if how == 'batch' and persist:
        return w.call(pm.update_batch, [dict(section_path_str=p, **args)]), 0, 1
    if how == 'gen' and persist:
        return w.call(pm.update_batch, (x for x in [dict(section_path_str=p, **args)])), 0, 1
    if how == 'updater' and persist:
        from pyfileconf import BatchUpdater
        return w.call(BatchUpdater().update, [dict(section_path_str=f'{m}.{p}', **args)]), 0, 1
    if how == 'd_':
        return w.call(pm.update, dict(args), section_path_str=p, pyfileconf_persist=persist), 1, 0
    if how == 'both':
        items = list(args.items())
        return w.call(pm.update, dict(items[:1]), section_path_str=p, pyfileconf_persist=persist, **dict(items[1:])), 1, 0
    return w.call(pm.update, section_path_str=p, pyfileconf_persist=persist, **args), 1, 0


def update(w, d, g, ctl, op):
    key = (op['m'], op['p'])
    what = str(op)
    persist = op['persist'] or key in g.readers or op.get('react') is not None
    args = op['args']
    if op['same']:
        args = {a: C.like(v) if op['same'] == 'like' else v for a, v in g.raw(key).items() if a in args}
    is_update = not (op['how'] in ('batch', 'gen', 'updater') and persist)
    if not is_update:
        op = ctl.op = {k: v for k, v in op.items() if k not in ('add', 'stop')}
    r = op.get('react')
    if r and key in {(r['m'], r['p'])} | g.all_dependents((r['m'], r['p'])):
        op = ctl.op = {k: v for k, v in op.items() if k != 'react'}
        r = None
    steps = Steps(g)
    o, n_update, n_batch = do_call(w, d, op, key, args, persist)
    full = {**args, **(op['add']['args'] if op.get('add') else {})}
    if op.get('stop'):
        if o.ok or not ctl.raised:
            raise Violation('plugin-exception-lost', what)
        judge(ctl, steps, what)
        return
    changes = any(steps.before[key][a] != v for a, v in C.canon(C.real(full)).items())
    if ctl.raised:
        expect_raised(o, op, what)
        rkey = tuple(op['raise'][:2])
        if rkey == key:
            if not changes:
                raise Violation('hook-without-change', what)
            unchanged(w, d, g, ctl, key, what)
            return
        # the item itself has changed, the dependent for which it was raised has not
        g.base.update(*key, full, persist)
        new = g.values(key)
        deps = g.all_dependents(key)
        old = steps.before[rkey]
        ctl.clear()
        d.check(*key, 'run', new, f'{what}, which raised before the change of {rkey}')
        if len(Steps.paths(steps, key)) and Steps.paths(steps, key).get(rkey) == 1:
            d.check(*rkey, 'attr', old, f'{what}, which raised before the change of {rkey}')
        recover(w, d, g, op, deps)
        return
    if not o.ok:
        raise Violation('unexpected-exception', f'{what}: {o!r}')
    g.base.update(*key, full, persist)
    steps.did(key)
    if r and ctl.reacted:
        g.base.update(r['m'], r['p'], r['args'], True)
        steps.did((r['m'], r['p']))
        n_update += 1
        # what the other plugins are told of is in the order in which they are called: only the first sees it all
        for rec in ctl.recs:
            both = [e for e in rec.events if e[0] in ('pre', 'post')]
            if not both:
                raise Violation('hook-not-called', f'{what}: plugin {rec.i}')
        react_bounds(steps, key, (r['m'], r['p']))
    judge(ctl, steps, what)
    count_hooks(ctl, what, pre_update=n_update, post_update=n_update, pre_batch=n_batch, post_batch=n_batch,
                pre_run=0, post_run=0)


def react_bounds(steps, *keys):
    """one after the other in the model, in between each other in reality"""
    for k in steps.now:
        if k in keys and not steps.g.sources(k):
            continue
        if steps.most[k]:
            steps.least[k] = int(steps.before[k] != steps.now[k])


def expect_raised(o, op, what):
    if o.ok:
        raise Violation('plugin-exception-lost', f'{what}: a before-change plugin raised, but nothing was reported')
    if (o.exc.filename if op['raise'][2] == 'oserror' else o.exc.args[0]) != 'plugin':
        raise Violation('plugin-exception-replaced', f'{what}: got {o!r}')


def unchanged(w, d, g, ctl, key, what):
    """a before-hook raised: nothing is different, also not after a refresh of the item"""
    for r in ctl.recs:
        ev = [e for e in r.events if e[0] == 'post']
        if ev:
            raise Violation('hook-without-change', f'{what}: {ev[0]}')
    ctl.clear()
    for k in [key, *g.dependents(key)]:
        d.check(*k, 'attr', g.values(k), f'{what}: a before-hook raised')
    d.check(*key, 'run', g.values(key), f'{what}: a before-hook raised')
    steps = Steps(g)
    w.must('refresh', d.pms[key[0]].refresh, key[1])
    g.base.refresh(*key)
    steps.did(key)
    judge(ctl, steps, f'refresh after {what} where a before-hook raised')
    d.check(*key, 'run', g.values(key), f'refresh after {what} where a before-hook raised')


def batch(w, d, g, ctl, op):
    if op.get('raise') and tuple(op['raise'][:2]) in g.readers:
        # would not know at which of the updates it was raised
        op = ctl.op = {k: v for k, v in op.items() if k != 'raise'}
    what = str(op)
    steps = Steps(g)
    ups = [dict(u) for u in op['ups']]
    cur = {}
    payload = []
    for u in ups:
        key = (u['m'], u['p'])
        if u['same']:
            vals = {**g.raw(key), **cur.get(key, {})}
            u['args'] = {a: vals[a] for a in u['args']}
        cur.setdefault(key, {}).update(u['args'])
        payload.append(dict(section_path_str=u['p'] if op['one'] else f"{u['m']}.{u['p']}", **C.real(u['args'])))
    if op['how'] == 'gen':
        arg = (x for x in payload)
    elif op['how'] == 'tuple':
        arg = tuple(payload)
    else:
        arg = payload
    if op['one']:
        o = w.call(d.pms[op['one']].update_batch, arg)
    else:
        from pyfileconf import BatchUpdater
        o = w.call(BatchUpdater().update, arg)
    add = op.get('add')
    if ctl.raised:
        expect_raised(o, op, what)
        # those before it are applied. Find out where it was
        rkey = tuple(op['raise'][:2])
        touched = set()
        for u in ups:
            key = (u['m'], u['p'])
            before = g.values(key)
            if key == rkey and any(before[a] != v for a, v in C.canon(C.real(u['args'])).items()):
                break
            g.base.update(*key, u['args'])
            touched.add(key)
        ctl.clear()
        for key in sorted(touched):
            if not g.sources(key):
                d.check(*key, 'run', g.values(key), what)
        deps = {x for key in touched | {rkey} for x in g.all_dependents(key)} | {rkey}
        recover(w, d, g, op, deps)
        return
    if not o.ok:
        raise Violation('unexpected-exception', f'{what}: {o!r}')
    if add:
        # may come before or after those which were passed. If it updates the same argument, either may win
        key = (add['m'], add['p'])
        if key in cur or any(key in g.all_dependents(k) or k in g.all_dependents(key) for k in cur):
            for u in ups:
                g.base.update(u['m'], u['p'], u['args'])
            clash = {a for a in add['args'] if a in cur.get(key, {})}
            g.base.update(*key, {a: v for a, v in add['args'].items()})
            if clash:
                v = w.must('get', d.see, *key, 'attr')[1]
                a = next(iter(clash))
                if C.canon(v[a]) not in (add['args'][a], C.canon(C.real(cur[key][a]))):
                    raise Violation('wrong-values', f'{what}: {key} has {v}')
                g.base.update(*key, {a: v[a]})
            for x in g.items():
                d.check(*x, 'run', g.values(x), what)
        else:
            for u in ups:
                g.base.update(u['m'], u['p'], u['args'])
                steps.did((u['m'], u['p']))
            g.base.update(*key, add['args'])
            steps.did(key)
            react_bounds(steps, key, *cur)
            judge(ctl, steps, what)
    else:
        for u in ups:
            g.base.update(u['m'], u['p'], u['args'])
            steps.did((u['m'], u['p']))
        judge(ctl, steps, what)
    count_hooks(ctl, what, pre_update=0, post_update=0, pre_batch=1, post_batch=1)


def single(w, d, g, ctl, op, key, kind, steps=None):
    what = str(op)
    steps = steps or Steps(g)
    o = w.call(getattr(d.pms[key[0]], kind), key[1])
    if ctl.raised:
        expect_raised(o, op, what)
        unchanged(w, d, g, ctl, key, what)
        return
    if not o.ok:
        raise Violation('unexpected-exception', f'{what}: {o!r}')
    (g.base.refresh if kind == 'refresh' else g.base.reset)(*key)
    steps.did(key)
    judge(ctl, steps, what)
    count_hooks(ctl, what, pre_update=0, post_update=0, pre_batch=0, post_batch=0, pre_run=0, post_run=0)


def reload(w, d, g, ctl, m, steps=None):
    steps = steps or Steps(g)
    w.must('reload', d.pms[m].reload)
    g.base.reload(m)
    steps.now = {x: g.values(x) for x in steps.now}
    for x in steps.now:
        steps.least[x] = int(steps.before[x] != steps.now[x])
        steps.most[x] = 50
    judge(ctl, steps, f'reload of {m}', skip={x for x in g.items() if x[0] == m})
    warm(w, d, g)


def do_run(w, d, g, ctl, op):
    what = str(op)
    m = op['m']
    force = d.projects[m].get('force_continue', False)
    ps = list(op['ps'])
    how = op['how']
    if how in ('str', 'view'):
        ps = ps[:1]
    arg = {'str': lambda: ps[0], 'list': lambda: list(ps), 'view': lambda: d.view(m, ps[0]),
           'views': lambda: [d.view(m, p) for p in ps]}[how]()
    add = op.get('add')
    extra = []
    if add:
        if add['how'] == 'inplace':
            extra = list(add['ps']) if isinstance(arg, list) else []
        elif add['how'] == 'return_list':
            extra = list(add['ps'])
        else:
            extra = add['ps'][:1]
    todo = ps + extra
    names = {p: n for p, n, _ in C.all_items(d.projects[m])}
    if op.get('fail'):
        w.set_user_faults([{'site': d.items.site(names[op['fail'][0]]), 'do': op['fail'][1]}])
    w.events.clear()
    o = w.call(d.pms[m].run, arg)
    ran = [(s, C.canon(a)) for s, a in w.events if not s.startswith('cfg')]
    w.set_user_faults()
    site_fails = d.items.site(names[op['fail'][0]]) if op.get('fail') else None
    fails = [d.items.site(names[p]) == site_fails for p in todo]
    stop = fails.index(True) + 1 if True in fails and not force else len(todo)
    want = [(d.items.site(names[p]), g.values((m, p))) for p in todo]
    if [(s, dict(a)) for s, a in ran] != want[:stop]:
        raise Violation('added-items-not-run', f'{what}: ran {ran}, expected {want[:stop]}')
    good = [(s, tuple(sorted(a.items()))) for (s, a), f in zip(want, fails) if not f]
    if True in fails and not force:
        if o.ok:
            raise Violation('exception-lost', what)
        count_hooks(ctl, what, pre_run=1, post_run=0)
    else:
        if not o.ok:
            raise Violation('unexpected-exception', f'{what}: {o!r}')
        count_hooks(ctl, what, pre_run=1, post_run=1)
        one = len(todo) == 1
        result = C.canon(o.value)
        if one and not fails[0]:
            res = good[0]
            if op.get('more') == 'return':
                res = [good[0], 'extra1']
        else:
            res = list(good)
            if op.get('more'):
                res.append('extra1')
        if result != res:
            raise Violation('wrong-results', f'{what}: returned {result!r}, expected {res!r}')
    no_changes(ctl, what)
    count_hooks(ctl, what, pre_update=0, post_update=0, pre_batch=0, post_batch=0)


def do_iter(w, d, g, ctl, op):
    what = str(op)
    m, p = op['m'], op['p']
    key = (m, p)
    steps = Steps(g)
    args = (p, [{'section_path_str': p, op['arg']: C.real(v)} for v in op['vals']])
    setup = g.raw(key)
    if op['gen']:
        o = w.call(lambda: list(d.pms[m].run_product_gen(*args)))
    else:
        o = w.call(d.pms[m].run_product, *args)
    if not o.ok:
        raise Violation('unexpected-exception', f'{what}: {o!r}')
    for v in op['vals']:
        g.base.update(m, p, {**setup, op['arg']: v})
        steps.did(key)
    judge(ctl, steps, what)
    n = len(op['vals'])
    count_hooks(ctl, what, pre_run=n, post_run=n, pre_batch=n, post_batch=n, pre_update=0, post_update=0)
