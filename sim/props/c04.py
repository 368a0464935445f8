"""C04: configurations that read other items always follow them"""
import random

from ..seams import CLOCK
from ..world import Violation, HarnessError
from . import proj as P
from . import conf as C

RUNS = {'quick': 650, 'thorough': 60000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-3 generated projects whose config files read attributes (or results) of other items in an acyclic '
        'graph (chains, diamonds, over managers), and 5-40 operations (updates, batches, assignments, resets, refreshes, '
        'edits which change the references, reloads, restarts, dependents whose file raises during the update); '
        'non-trivial: at least one item which another one reads was changed')
STATES = 'hash of the effective values of all items after each operation'
ASSUMPTIONS = ['items which read others, or did before, get no transient updates (a refresh may drop them at any time)',
               'the graph of references is acyclic']


# exprs: ['lit', v] | ['ref', wrap, [[m, p, arg], ...]]
def gen_expr(rng, lower, fresh):
    if not lower or rng.random() < 0.35:
        return ['lit', next(fresh)]
    n = rng.choice([1, 1, 2])
    refs = []
    for _ in range(n):
        m, p, args, kind = rng.choice(lower)
        if args:
            refs.append([m, p, rng.choice(args), kind])
    if not refs:
        return ['lit', next(fresh)]
    wrap = rng.choice(['plain', 'plain', 'list', 'dict', 'cond', 'helper', 'view', 'iv'])
    if len(refs) > 1:
        wrap = rng.choice(['list', 'tuple'])
    return ['ref', wrap, refs]


def gen(rng, tier):
    case = C.gen_world(rng, n_managers=rng.choice([1, 2, 2, 3]), names=('pm', 'pm2', 'other'),
                       n_items=rng.randint(2, 5))
    fresh = iter(range(100, 100000))
    kinds = {it['n']: it['k'] for mod in case['modules'].values() for it in mod}
    nodes = [(pr['name'], p, C.item_args(case, n), kinds[n]) for pr in case['projects'] for p, n, _ in C.all_items(pr)]
    rng.shuffle(nodes)
    rank = {(m, p): i for i, (m, p, _, _) in enumerate(nodes)}

    def lower(m, p):
        near = nodes[max(0, rank[m, p] - 3):rank[m, p]]
        return near if rng.random() < 0.7 else nodes[:rank[m, p]]
    files = []
    for m, p, args, k in nodes:
        files.append([m, p, {a: gen_expr(rng, lower(m, p), fresh) for a in args}])
    case['files'] = files
    ops = []
    for _ in range(rng.randint(5, 40 if tier == 'thorough' else 22)):
        m, p, args, kind = nodes[min(rng.randrange(len(nodes)), rng.randrange(len(nodes)))]
        k = rng.random()
        if not args:
            continue
        a = rng.choice(args)
        if k < 0.32:
            ops.append({'op': 'update', 'm': m, 'p': p, 'args': {a: next(fresh)}, 'persist': rng.random() < 0.75,
                        'how': rng.choice(['kw', 'sel', 'batch', 'updater'])})
        elif k < 0.38:
            ups = []
            for _ in range(rng.randint(2, 4)):
                m2, p2, args2, _ = rng.choice(nodes)
                if args2:
                    ups.append({'m': m2, 'p': p2, 'args': {rng.choice(args2): next(fresh)}})
            ops.append({'op': 'batch', 'ups': ups})
        elif k < 0.45:
            ops.append({'op': 'refresh', 'm': m, 'p': p})
        elif k < 0.55:
            ops.append({'op': 'reset', 'm': m, 'p': p})
        elif k < 0.58:
            ops.append({'op': 'reset_section', 'm': m, 's': p.rsplit('.', rng.randint(1, p.count('.')))[0]})
        elif k < 0.70:
            ops.append({'op': 'edit', 'm': m, 'p': p, 'arg': a, 'e': gen_expr(rng, lower(m, p), fresh),
                        'then': rng.choice(['refresh', 'reset', 'reload'])})
        elif k < 0.78:
            ops.append({'op': 'reload', 'm': m})
        elif k < 0.81:
            ops.append({'op': 'restart'})
        elif k < 0.90:
            m2, p2, _, _ = rng.choice(nodes)
            ops.append({'op': 'fail_dep', 'm': m, 'p': p, 'arg': a, 'v': [next(fresh), next(fresh)],
                        'in': [m2, p2], 'do': rng.choice(['error', 'kbi', 'key', 'attr', 'value'])})
        elif k < 0.92:
            ops.append({'op': 'back'})
        elif k < 0.96 and len(case['projects']) > 1:
            ops.append({'op': 'fail_reload', 'm': m, 'p': p, 'arg': a, 'e': gen_expr(rng, lower(m, p), fresh),
                        'pick': rng.randrange(1 << 16), 'do': rng.choice(['error', 'key', 'attr', 'value'])})
        elif len(case['projects']) > 1:
            ops.append({'op': 'gone', 'm': rng.choice(case['projects'])['name']})
        elif rng.random() < 0.3:
            ops.append({'op': 'back'})
        if rng.random() < 0.6:
            m, p, _, _ = rng.choice(nodes)
            ops.append({'op': 'see', 'm': m, 'p': p, 'how': rng.choice(C.HOWS)})
    case['ops'] = ops
    case['see_salt'] = rng.randrange(1 << 20)
    case['hash_salt'] = rng.randrange(1, 1 << 20)
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


def source(d, ref):
    m, p, arg, kind = ref
    if kind == 'f':
        return f"s.{m}.{p}.keywords[{arg!r}]"
    return f's.{m}.{p}.{arg}'


def expr_src(d, a, e, helpers):
    if e[0] == 'lit':
        return C.expr(e[1])
    refs = [source(d, r) for r in e[2]]
    wrap = e[1]
    if wrap == 'helper':
        helpers.append(f'helper_{a} = {refs[0]}')
        return f'helper_{a}'
    if wrap == 'view':
        m, p, arg, kind = e[2][0]
        helpers.append(f'view_{a} = s.{m}.{p}')
        return f'view_{a}.keywords[{arg!r}]' if kind == 'f' else f'view_{a}.{arg}'
    if wrap == 'iv':
        m, p, arg, kind = e[2][0]
        helpers.append(f"view_{a} = Selector()({m!r})")
        for part in p.split('.'):
            helpers.append(f'view_{a} = getattr(view_{a}, {part!r})')
        return f'view_{a}.keywords[{arg!r}]' if kind == 'f' else f'view_{a}.{arg}'
    return {'plain': '{}', 'list': '[{}]', 'dict': "{{'k': {}}}", 'cond': '{} if True else None',
            'tuple': '({},)'}[wrap].format(', '.join(refs))


class Graph:
    def __init__(self, case):
        self.base = C.Model(case)
        self.exprs = {(m, p): dict(e) for m, p, e in case['files']}
        self.unsure = set()
        self.gone = set()       # managers which are not there now
        self.unloaded = set()   # may not have been loaded yet, so that changing what they read does not change them
        self.readers = {k for k in self.exprs if self.sources(k)}   # files which read others, now or before

    def items(self):
        return list(self.exprs)

    def refs(self, key):
        return [tuple(r[:3]) for e in self.exprs[key].values() if e[0] == 'ref' for r in e[2]]

    def sources(self, key):
        return {r[:2] for r in self.refs(key)}

    def dependents(self, key):
        return [k for k in self.exprs if key in self.sources(k)]

    def sure(self, key):
        return key not in self.unsure and all(self.sure(s) for s in self.sources(key))

    def it(self, key):
        return self.base.items[key[0]][key[1]]

    def value(self, key, arg):
        it = self.it(key)
        if arg in it.transient:
            return it.transient[arg]
        if arg in it.lasting:
            return it.lasting[arg]
        e = self.exprs[key].get(arg)
        if e is None:
            return it.file[arg]
        if e[0] == 'lit':
            return e[1]
        vals = [self.value((m, p), a) for m, p, a, _ in e[2]]
        return {'list': vals, 'tuple': tuple(vals), 'dict': {'k': vals[0]}}.get(e[1], vals[0])

    def values(self, key):
        args = list(self.it(key).file)
        return {a: self.value(key, a) for a in args}

    def changed(self, key, before, fresh):
        """an operation changed the item: everything which reads it was refreshed"""
        was_sure = self.sure(key)
        now = self.values(key)
        args = {a for a in now if now[a] != before[a]}
        self._propagate(key, args, was_sure or fresh, fresh)

    def _propagate(self, key, args, certain, fresh):
        if not args or not certain:
            return
        for dep in self.dependents(key):
            if key in self.unloaded and dep in self.unsure:
                continue
            was_sure = self.sure(dep)
            self.unsure.discard(dep)
            it = self.it(dep)
            changed = {a for a, e in self.exprs[dep].items() if e[0] == 'ref' and a not in it.lasting
                       and any(tuple(r[:2]) == key and r[2] in args for r in e[2])}
            self._propagate(dep, changed, was_sure or fresh, fresh)

    def all_dependents(self, key):
        out = set()
        todo = [key]
        while todo:
            for dep in self.dependents(todo.pop()):
                if dep not in out:
                    out.add(dep)
                    todo.append(dep)
        return out


def file_text(d, g, key):
    helpers = []
    lines = []
    it = g.it(key)
    for a in it.file:
        if a not in g.exprs[key]:
            lines.append(f'{a} = {it.file[a]!r}')
    for a, e in g.exprs[key].items():
        lines.append(f'{a} = {expr_src(d, a, e, helpers)}')
    return ('from pyfileconf import Selector\nimport simrt\n\ns = Selector()\n'
            f"simrt.cfg('{key[0]}.{key[1]}')\n" + '\n'.join(helpers + lines) + '\n')


def run(w):
    st = w.state
    d = C.Driver(w)
    if st['incarnation'] == 0:
        d.write()
        st['pc'] = 0
        g = st['graph'] = Graph(w.case)
        for key in g.items():
            w.write(d.rel(*key), file_text(d, g, key))
    g = st['graph']
    order = list(d.projects)
    random.Random(w.case['see_salt']).shuffle(order)
    for m in d.projects:
        w.must('constructing', d.construct, m)
    for m in order:
        w.must('loading', d.pms[m].load)
    if st['incarnation'] > 0:
        for m in d.projects:
            g.base.reload(m)
        g.unsure = set()
        g.unloaded = set()
        g.gone = set()
        check_all(w, d, g, 'after restart')
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(op.get('dt', 1.0))
        w.log(st['pc'], op)
        w.count('op:' + op['op'])
        if op['op'] == 'restart':
            st['pc'] += 1
            w.restart()
        step(w, d, g, op)
        if op['op'] != 'see':
            rng = random.Random(f"{w.case['see_salt']}/{st['pc']}")
            keys = g.items()
            if rng.random() < 0.6:
                for key in rng.sample(keys, min(len(keys), rng.randint(1, 3))):
                    see(w, d, g, key, rng.choice(C.HOWS), f'after {op}')
            w.note_state([(k, g.values(k)) for k in keys])
        st['pc'] += 1
    check_all(w, d, g, 'at the end')


def see(w, d, g, key, how, what):
    if key[0] in g.gone:
        return
    if not g.sure(key):
        o = w.call(d.see, *key, how)
        if not o.ok:
            raise Violation('unexpected-exception:see', f'{what}: {how} {key}: {o!r}')
        return
    d.check(*key, how, g.values(key), what)


def check_all(w, d, g, what):
    rng = random.Random(f"{w.case['see_salt']}/all/{w.state['incarnation']}")
    keys = g.items()
    rng.shuffle(keys)
    for key in keys:
        see(w, d, g, key, rng.choice(C.HOWS), what)


def do_update(w, d, g, key, args, how, persist):
    m, p = key
    if how == 'sel':
        for a, v in args.items():
            w.must('assignment', setattr, d.view(m, p), a, v)
    elif how == 'batch' and persist:
        w.must('update_batch', d.pms[m].update_batch, [dict(section_path_str=p, **args)])
    elif how == 'updater' and persist:
        from pyfileconf import BatchUpdater
        w.must('BatchUpdater.update', BatchUpdater().update, [dict(section_path_str=f'{m}.{p}', **args)])
    else:
        w.must('update', d.pms[m].update, section_path_str=p, pyfileconf_persist=persist, **args)


def uses(op):
    """the managers an operation is about"""
    refs = [r[0] for r in op['e'][2]] if op.get('e', ['lit'])[0] == 'ref' else []
    return {*refs, *[u['m'] for u in op.get('ups', ())], *op.get('in', ())[:1], *([op['m']] if 'm' in op else [])}


def step(w, d, g, op):
    k = op['op']
    if k != 'back' and uses(op) & g.gone:
        return
    if k == 'see':
        see(w, d, g, (op['m'], op['p']), op['how'], 'looking')
        return
    if k == 'update':
        key = (op['m'], op['p'])
        persist = op['persist'] or op['how'] == 'sel' or key in g.readers
        if g.dependents(key):
            w.count('nontrivial')
        before = g.values(key)
        do_update(w, d, g, key, op['args'], op['how'], persist)
        g.base.update(*key, op['args'], persist)
        g.changed(key, before, True)
    elif k == 'batch':
        from pyfileconf import BatchUpdater
        w.must('BatchUpdater.update', BatchUpdater().update,
               [dict(section_path_str=f"{u['m']}.{u['p']}", **u['args']) for u in op['ups']])
        for u in op['ups']:
            key = (u['m'], u['p'])
            before = g.values(key)
            g.base.update(*key, u['args'])
            g.changed(key, before, True)
    elif k in ('refresh', 'reset'):
        key = (op['m'], op['p'])
        single(w, d, g, key, k)
    elif k == 'reset_section':
        m, s = op['m'], op['s']
        w.must('reset of a section', d.pms[m].reset, s)
        for key in g.items():
            if key[0] == m and key[1].startswith(s + '.'):
                modelled(g, key, 'reset')
    elif k == 'edit':
        key = (op['m'], op['p'])
        before = g.values(key)
        g.exprs[key][op['arg']] = op['e']
        if g.sources(key):
            g.readers.add(key)
        w.write(d.rel(*key), file_text(d, g, key))
        if op['then'] == 'reload':
            reload(w, d, g, key[0])
        else:
            single(w, d, g, key, op['then'], before)
    elif k == 'reload':
        reload(w, d, g, op['m'])
    elif k == 'fail_dep':
        key = (op['m'], op['p'])
        w.set_user_faults([{'site': f"cfg:{op['in'][0]}.{op['in'][1]}", 'do': op['do']}])
        w.call(d.pms[op['m']].update, section_path_str=op['p'], **{op['arg']: op['v'][0]})
        w.set_user_faults()
        g.base.update(*key, {op['arg']: op['v'][0]})
        g.unsure |= g.all_dependents(key)
        before = g.values(key)
        w.must('update', d.pms[op['m']].update, section_path_str=op['p'], **{op['arg']: op['v'][1]})
        g.base.update(*key, {op['arg']: op['v'][1]})
        g.changed(key, before, True)
    elif k == 'gone':
        # nothing reads it, but it reads others
        if not any(s[0] == op['m'] for k2 in g.items() if k2[0] != op['m'] and k2[0] not in g.gone for s in g.sources(k2)):
            from pyfileconf import context
            del context.active_managers[op['m']]
            g.gone.add(op['m'])
    elif k == 'back':
        for m in sorted(g.gone):
            if all(s[0] == m or s[0] not in g.gone for k2 in g.items() if k2[0] == m for s in g.sources(k2)):
                w.must('constructing', d.construct, m)
                w.must('loading', d.pms[m].load)
                g.gone.discard(m)
                g.base.reload(m)
                g.unsure -= {k2 for k2 in g.items() if k2[0] == m}
    elif k == 'fail_reload':
        # while a manager is reloaded, the file of something in another manager which reads it raises
        key = (op['m'], op['p'])
        g.exprs[key][op['arg']] = op['e']
        if g.sources(key):
            g.readers.add(key)
        w.write(d.rel(*key), file_text(d, g, key))
        outside = [k2 for k2 in g.items() if k2[0] != op['m'] and k2[0] not in g.gone and any(s[0] == op['m'] for s in g.sources(k2))]
        fails = outside[op['pick'] % len(outside)] if outside else None
        if fails:
            w.set_user_faults([{'site': f'cfg:{fails[0]}.{fails[1]}', 'do': op['do']}])
        reload(w, d, g, op['m'])
        w.set_user_faults()
        if fails:
            g.unloaded |= {k2 for k2 in g.items() if k2[0] == op['m']}
            if len(outside) > 1:
                w.count('nontrivial')
            for k2 in outside:
                if k2 == fails:
                    g.unsure |= {k2} | g.all_dependents(k2)
                elif fails in g.all_dependents(k2):
                    # refreshing what reads this one fails as well
                    g.unsure |= g.all_dependents(k2)


def single(w, d, g, key, kind, before=None):
    w.must(kind, getattr(d.pms[key[0]], kind), key[1])
    modelled(g, key, kind, before)


def modelled(g, key, kind, before=None):
    before = before or g.values(key)
    was = g.sure(key)
    if kind == 'refresh':
        g.base.refresh(*key)
    else:
        g.base.reset(*key)
    g.unsure.discard(key)
    if was and g.sure(key):
        g.changed(key, before, False)


def reload(w, d, g, m):
    """loads everything in the manager again, and refreshes what reads it in other managers"""
    keys = g.items()
    before = {k: g.values(k) for k in keys}
    w.must('reload', d.pms[m].reload)
    g.base.reload(m)
    for key in keys:
        if key[0] == m:
            g.unsure.discard(key)
    for key in keys:
        if key[0] != m and any(s[0] == m for s in g.sources(key)):
            g.unsure.discard(key)
