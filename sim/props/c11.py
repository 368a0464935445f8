"""C11: looking things up never changes what later lookups find"""
import copy
import functools
import gc
import random
import types

from ..seams import CLOCK
from ..world import HarnessError, Violation, short
from . import proj as P
from . import conf as C

RUNS = {'quick': 1200, 'thorough': 120000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-2 generated projects, whose managers may be loaded at different moments, and 10-60 lookups (by path, '
        'by attribute, through selectors and views; of items, sections, managers; successful ones, ones with a typo at any '
        'position, ones which fail in user code, and half-finished ones which are kept and continued later, also from '
        'inside of running items) with updates, resets and reloads between them; non-trivial: a kept lookup was continued '
        'or an old view used after something else happened')
STATES = 'hash of the model configuration, the known identities and the open lookups after each operation'
ASSUMPTIONS = ['handles to sections which were got by attribute from a manager are not used after it was reloaded, '
               'except to disturb other lookups']

LOOKS = ['see', 'see', 'ident', 'ident', 'ident', 'open', 'open', 'open', 'cont', 'cont', 'cont', 'finish', 'finish',
         'finish', 'finish', 'keep', 'oldview', 'oldview', 'typo', 'typo', 'typo', 'section', 'contains', 'dir', 'type',
         'repr', 'eq', 'copy', 'mgr', 'gc', 'prop', 'prop', 'prop']


def gen(rng, tier):
    case = C.gen_world(rng)
    case['initsite'] = rng.random() < 0.5
    all_paths = [(pr['name'], p, n) for pr in case['projects'] for p, n, _ in C.all_items(pr)]
    order = {(m, p): i for i, (m, p, _) in enumerate(all_paths)}
    secs = [(pr['name'], s) for pr in case['projects'] for s in C.sections_of(pr)]
    fresh = iter(range(100, 100000))
    hot = rng.sample(all_paths, min(len(all_paths), rng.randint(1, 3)))

    def pick():
        return rng.choice(hot if rng.random() < 0.6 else all_paths)

    def look():
        m, p, n = pick()
        k = rng.choice(LOOKS)
        op = {'op': k, 'm': m, 'p': p, 'r': rng.randrange(1 << 16)}
        if k == 'see':
            op['how'] = rng.choice(C.HOWS)
        elif k == 'ident':
            op['how'] = rng.choice(['get', 'getview', 'dotted', 'item', 'sel', 'from'])
        elif k == 'open':
            op['kind'] = rng.choice(['pm', 'sel', 'sel'])
            op['n'] = rng.randrange(3)
        elif k == 'typo':
            op['how'] = rng.choice(['get', 'run', 'dotted', 'sel', 'call', 'attr', 'section', 'manager', 'hasattr', 'arg'])
            op['at'] = rng.randrange(4)
        elif k == 'prop':
            op['how'] = rng.choice(['sel', 'sel', 'dotted', 'get', 'old', 'method', 'in', 'hasattr'])
            op['do'] = rng.choice([None, None, None, 'error', 'attr', 'key', 'kbi'])
        elif k == 'section':
            op['m'], op['p'] = rng.choice(secs)
        return op

    ops = []
    for pr in case['projects']:
        if rng.random() < 0.7:
            ops.append({'op': 'load', 'm': pr['name']})
    for _ in range(rng.randint(10, 60 if tier == 'thorough' else 36)):
        k = rng.random()
        m, p, n = pick()
        if k < 0.68:
            ops.append(look())
        elif k < 0.80:
            args = {a: next(fresh) for a in rng.sample(C.item_args(case, n), 1)}
            lower = [(m2, p2) for m2, p2, _ in all_paths if order[m2, p2] < order[m, p]]
            if lower and rng.random() < 0.2:
                m2, p2 = rng.choice(lower)
                args = {a: {'$view': f'{m2}.{p2}'} for a in args}
            ops.append({'op': 'update', 'm': m, 'p': p, 'args': args, 'how': rng.choice(['pm', 'view', 'oldview']),
                        'r': rng.randrange(1 << 16)})
        elif k < 0.83:
            ops.append({'op': rng.choice(['reset', 'refresh']), 'm': m, 'p': p, 'view': rng.random() < 0.4})
        elif k < 0.88:
            ops.append({'op': 'reload', 'm': m})
        elif k < 0.90:
            ops.append({'op': 'load', 'm': m})
        elif k < 0.93:
            ops.append({'op': 'fail_file', 'm': m, 'p': p, 'how': rng.choice(['get', 'dotted', 'attr', 'run']),
                        'do': rng.choice(['error', 'attr', 'key', 'kbi', 'value'])})
        elif k < 0.95:
            ops.append({'op': 'fail_init', 'm': m, 'p': p, 'how': rng.choice(['get', 'dotted', 'attr', 'run']),
                        'do': rng.choice(['error', 'attr', 'key', 'kbi', 'value'])})
        else:
            ops.append({'op': 'inside', 'm': m, 'p': p, 'ops': [look() for _ in range(rng.randint(1, 4))],
                        'do': rng.choice([None, None, 'error', 'kbi'])})
    for pr in case['projects']:
        ops.append({'op': 'load', 'm': pr['name']})
    case['ops'] = ops
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


class Handle:
    """a lookup which was begun"""

    def __init__(self, kind, m, parts, obj, gen):
        self.kind, self.m, self.parts, self.obj, self.gen = kind, m, parts, obj, gen


class Sim:
    def __init__(self, w):
        from pyfileconf import Selector
        self.w = w
        self.d = C.Driver(w)
        self.model = C.Model(w.case)
        self.gen = {m: 0 for m in self.model.items}      # 0: not loaded, then counts the loads
        self.ids = {}            # (m, path) -> (generation, object)
        self.handles = []
        self.views = []          # (m, path, view) of items
        self.selectors = [Selector()]
        # items which are, or once will be, values in the configuration of others: may be looked at through those
        self.viewed = {x['$view'] for op in w.case['ops'] for x in op.get('args', {}).values()
                       if isinstance(x, dict) and '$view' in x}

    # -- helpers
    def loaded(self, m):
        return self.gen[m] > 0

    def value(self, x):
        from pyfileconf.selector.models.itemview import ItemView
        if isinstance(x, dict) and '$view' in x:
            return ItemView.from_section_path_str(x['$view'])
        return x

    def want(self, m, p):
        return self.model.values(m, p)

    def selector(self, r):
        from pyfileconf import Selector
        if r % 4 == 0:
            self.selectors.append(Selector())
        return self.selectors[r % len(self.selectors)]

    def path_of(self, s, m, p, r=0):
        v = getattr(s, m)
        for part in p.split('.'):
            v = getattr(v, part)
        return v

    def check_id(self, m, p, obj, what):
        self.model.touch(m, p.split(' ')[0])
        g, known = self.ids.get((m, p), (None, None))
        if g == self.gen[m]:
            if known is not obj:
                raise Violation('other-object', f'{what}: {m}.{p} gave another object than before: {short(obj)} is not '
                                                f'{short(known)}')
        else:
            for (m2, p2), (g2, o2) in self.ids.items():
                if o2 is obj and (m2, p2) != (m, p) and g2 == self.gen[m2]:
                    raise Violation('shared-object', f'{what}: {m}.{p} gave the object of {m2}.{p2}')
            self.ids[m, p] = (self.gen[m], obj)

    def check_values(self, m, p, obj, what):
        """obj is the item"""
        self.model.touch(m, p)
        site, args = P.strip(self.quiet(self.d.call_item, m, p, obj))
        name = self.model.items[m][p].name
        if site != self.d.items.site(name):
            raise Violation('wrong-item', f'{what}: {m}.{p} executed {site}')
        want = self.want(m, p)
        if not same(args, want):
            raise Violation('wrong-values', f'{what}: {m}.{p} gave {args}, expected {want}')

    def quiet(self, fn, *args):
        """call of an item, which does not do nested lookups"""
        hook, self.w.hook = self.w.hook, None
        try:
            return self.w.must('calling the item', fn, *args)
        finally:
            self.w.hook = hook

    def must(self, what, fn, *args):
        return self.w.must(what, fn, *args)

    def fails(self, what, fn, *args):
        o = self.w.call(fn, *args)
        if o.ok:
            raise Violation('error-hidden', f'{what} gave {short(o.value)}')
        self.w.count('fault:failing-lookup')


def same(a, b):
    """equal, and views are still views"""
    from pyfileconf.selector.models.itemview import is_item_view
    if set(a) != set(b):
        return False
    for k in a:
        if is_item_view(a[k]) != is_item_view(b[k]):
            return False
        if a[k] != b[k]:
            return False
    return True


def run(w):
    s = Sim(w)
    P.write_modules(w, w.case)
    if w.case['initsite']:
        add_init_sites(w)
    add_properties(w)
    for pr in w.case['projects']:
        P.write_project(w, w.case, pr)
    for m in s.d.projects:
        w.must('constructing', s.d.construct, m)
    for i, op in enumerate(w.case['ops']):
        CLOCK.advance(1.0)
        w.log(i, op)
        w.count('op:' + op['op'])
        step(w, s, op)
        no_props(f'{op}')
        w.note_state((s.gen, str(s.model.snapshot()), sorted(s.ids), [(h.kind, h.m, h.parts) for h in s.handles]))
    check_all(w, s)
    no_props('the lookups at the end')


def add_init_sites(w):
    """a place in every __init__ at which the user's code can fail"""
    for mod, items in w.case['modules'].items():
        text = w.read(f'src/{mod}.py')
        out, name = [], None
        for line in text.splitlines():
            out.append(line)
            if line.startswith('class '):
                name = line[6:-1]
            if line.startswith('    def __init__('):
                out.append(f"        simrt.cfg('init:{mod}.{name}')")
        w.write(f'src/{mod}.py', '\n'.join(out) + '\n')


def add_properties(w):
    """every class gets a property and a method, which report what they see"""
    import sys
    sys.modules['simrt'].props = []
    for mod, items in w.case['modules'].items():
        text = w.read(f'src/{mod}.py')
        for it in items:
            if it['k'] != 'c':
                continue
            site = f"{mod}.{it['n']}"
            body = (f"        simrt.props.append(({site!r}, dict(vars(self))))\n"
                    f"        simrt.cfg('prop:{site}')\n"
                    f"        return ({site!r}, dict(vars(self)))\n")
            head = f"class {it['n']}:\n"
            if text.count(head) != 1:
                raise HarnessError(f'no {head!r} in {mod}')
            text = text.replace(head, f"{head}    @property\n    def prop(self):\n{body}\n    def meth(self):\n{body}\n")
        w.write(f'src/{mod}.py', text)


def check_all(w, s):
    """everything is found, and is the same thing in whatever way it is looked up"""
    rng = random.Random(w.case['seed'] if 'seed' in w.case else 0)
    todo = [(m, p) for m in s.model.items for p in s.model.items[m]]
    rng.shuffle(todo)
    for m, p in todo:
        hows = ['get', 'getview', 'dotted', 'item', 'sel', 'from']
        rng.shuffle(hows)
        for how in hows:
            ident(w, s, {'m': m, 'p': p, 'how': how, 'r': rng.randrange(99)})
        s.d.check(m, p, rng.choice(['run', 'call']), s.want(m, p), 'at the end')
    for m, p, v in s.views:
        use_view(w, s, m, p, v, rng.randrange(99), 'at the end')
    for h in list(s.handles):
        finish(w, s, {'h': h, 'm': h.m, 'r': rng.randrange(99)})


def step(w, s, op):
    k = op['op']
    m = op['m']
    if k in DISPATCH:
        DISPATCH[k](w, s, op)
    elif k in ('load', 'reload'):
        if k == 'load' and s.loaded(m):
            return
        if not s.loaded(m):
            k = 'load'
        s.must(k, getattr(s.d.pms[m], k))
        s.model.reload(m)
        s.gen[m] += 1
    elif not s.loaded(m):
        return
    elif k == 'update':
        w.count('nontrivial')
        p = op['p']
        if any(isinstance(x, dict) and '$view' in x and not s.loaded(x['$view'].split('.')[0])
               for x in op['args'].values()):
            return
        args = {a: s.value(x) for a, x in op['args'].items()}
        if op['how'] == 'pm':
            s.must('update', lambda: s.d.pms[m].update(section_path_str=p, **args))
        else:
            v = None
            if op['how'] == 'oldview':
                old = [v for m2, p2, v in s.views if (m2, p2) == (m, p)]
                v = old[op['r'] % len(old)] if old else None
            if v is None:
                v = s.must('selecting', s.path_of, s.selector(op['r']), m, p)
            for a, x in args.items():
                s.must('assignment', setattr, v, a, x)
        s.model.update(m, p, args)
    elif k in ('reset', 'refresh'):
        x = op['p']
        if op['view'] and k == 'reset':
            x = s.must('selecting', s.path_of, s.selector(1), m, op['p'])
        s.must(k, getattr(s.d.pms[m], k), x)
        getattr(s.model, k)(m, op['p'])
    elif k == 'fail_file':
        fail_file(w, s, op)
    elif k == 'fail_init':
        it = s.d.items.by_name[s.model.items[m][op['p']].name]
        if not w.case['initsite'] or it['k'] != 'c' or (m, op['p']) in s.ids and s.ids[m, op['p']][0] == s.gen[m]:
            return
        if s.model.items[m][op['p']].touched or f"{m}.{op['p']}" in s.viewed:
            # was perhaps created already
            return
        s.model.touch(m, op['p'])
        w.set_user_faults([{'site': 'cfg:init:' + s.d.items.site(it['n']), 'do': op['do']}])
        s.fails(f'{op}', s.d.see, m, op['p'], op['how'])
        w.set_user_faults()
    elif k == 'inside':
        inside(w, s, op)


def fail_file(w, s, op):
    m, p = op['m'], op['p']
    if s.model.items[m][p].touched or f'{m}.{p}' in s.viewed:
        return
    rel = s.d.rel(m, p)
    text = w.read(rel)
    w.write(rel, f"import simrt\nsimrt.cfg('{m}.{p}')\n" + text)
    w.set_user_faults([{'site': f'cfg:{m}.{p}', 'do': op['do']}])
    s.fails(f'{op}', s.d.see, m, p, op['how'])
    w.set_user_faults()
    w.write(rel, text)


def inside(w, s, op):
    """the item does the lookups while it is running"""
    m, p = op['m'], op['p']
    site = s.d.items.site(s.model.items[m][p].name)
    todo = [o for o in op['ops'] if s.loaded(o['m'])]
    done = []

    def hook(at, args):
        if at != site or done:
            return None
        done.append(True)
        for o in todo:
            w.log('  inside', o)
            w.count('op:inside-' + o['op'])
            DISPATCH[o['op']](w, s, o)
        return None
    w.hook = hook
    s.model.touch(m, p)
    if op['do']:
        # the lookups are done first, then the item fails
        def hook2(at, args):
            r = hook(at, args)
            if at == site:
                from ..world import raise_fault
                w.hook = None
                w.count(f"fault:user:{op['do']}")
                raise_fault(op['do'], site)
            return r
        w.hook = hook2
        try:
            s.fails(f'running {p}', s.d.pms[m].run, p)
        finally:
            w.hook = None
        return
    try:
        r = s.must('run', s.d.pms[m].run, p)
    finally:
        w.hook = None
    at, args = P.strip(r)
    if at != site or not same(args, s.want(m, p)):
        raise Violation('wrong-values', f'running {m}.{p} gave {r}, expected {s.want(m, p)}')


# ---------------------------------------------------------------- the lookups

def see(w, s, op):
    m, p = op['m'], op['p']
    if not s.loaded(m):
        s.fails(f'{op}', s.d.see, m, p, op['how'])
        return
    s.model.touch(m, p)
    hook, w.hook = w.hook, None
    try:
        o = w.call(s.d.see, m, p, op['how'])
    finally:
        w.hook = hook
    if not o.ok:
        w.must('lookup', _raise, o.exc)
    site, args = o.value
    if site != s.d.items.site(s.model.items[m][p].name) or not same(args, s.want(m, p)):
        raise Violation('wrong-values', f'{op} gave {site} {args}, expected {s.want(m, p)}')


def _raise(e):
    raise e


def lookup(s, m, p, how, r):
    from pyfileconf.selector.models.itemview import ItemView
    pm = s.d.pms[m]
    if how == 'get':
        return pm.get(p)
    if how == 'getview':
        return pm.get(s.path_of(s.selector(r), m, p))
    if how == 'dotted':
        obj = pm
        for part in p.split('.'):
            obj = getattr(obj, part)
        return obj
    if how == 'item':
        return s.path_of(s.selector(r), m, p).item
    if how == 'sel':
        return s.selector(r)(f'{m}.{p}').item
    if how == 'from':
        return ItemView.from_section_path_str(f'{m}.{p}').item


def ident(w, s, op):
    m, p = op['m'], op['p']
    if not s.loaded(m):
        s.fails(f'{op}', lookup, s, m, p, op['how'], op['r'])
        return
    obj = s.must('lookup', lookup, s, m, p, op['how'], op['r'])
    s.check_id(m, p, obj, op['how'])
    s.check_values(m, p, obj, op['how'])


def open_(w, s, op):
    """begin a lookup and keep what was found so far"""
    m = op['m']
    parts = op['p'].split('.')[:-1][:op['n']]
    if op['kind'] == 'pm':
        obj = s.d.pms[m]
        if not parts:
            return
    else:
        obj = getattr(s.selector(op['r']), m)
    if not s.loaded(m) and parts:
        s.fails(f'{op}', walk, obj, parts)
        return
    obj = s.must('lookup', walk, obj, parts)
    s.handles.append(Handle(op['kind'], m, parts, obj, s.gen[m]))


def walk(obj, parts):
    for part in parts:
        obj = getattr(obj, part)
    return obj


def usable(s, h):
    return s.loaded(h.m) and (h.kind == 'sel' or h.gen == s.gen[h.m])


def below(s, h):
    return [p for p in s.model.items[h.m] if p.split('.')[:len(h.parts)] == h.parts and len(p.split('.')) > len(h.parts)]


def cont(w, s, op):
    """go on by one step with a lookup which was begun, and keep both"""
    if not s.handles:
        return
    h = s.handles[op['r'] % len(s.handles)]
    if not usable(s, h):
        # may fail or find what was there before, but not disturb others
        w.call(walk, h.obj, ['typo'])
        ps = below(s, h)
        if s.loaded(h.m):
            w.call(walk, h.obj, ps[op['r'] % len(ps)].split('.')[len(h.parts):])
        return
    w.count('nontrivial')
    ps = below(s, h)
    p = ps[op['r'] % len(ps)]
    nxt = p.split('.')[len(h.parts)]
    obj = s.must('continuing a lookup', getattr, h.obj, nxt)
    if len(p.split('.')) > len(h.parts) + 1:
        s.handles.append(Handle(h.kind, h.m, h.parts + [nxt], obj, h.gen))
    elif h.kind == 'sel':
        s.views.append((h.m, p, obj))
    else:
        s.check_id(h.m, p, obj, 'continued lookup')
        s.check_values(h.m, p, obj, 'continued lookup')


def finish(w, s, op):
    if 'h' in op:
        h = op['h']
    elif s.handles:
        h = s.handles[op['r'] % len(s.handles)]
    else:
        return
    if not usable(s, h):
        return
    w.count('nontrivial')
    ps = below(s, h)
    p = ps[(op['r'] // 7) % len(ps)]
    obj = s.must('finishing a lookup', walk, h.obj, p.split('.')[len(h.parts):])
    if h.kind == 'sel':
        use_view(w, s, h.m, p, obj, op['r'], 'finished lookup')
    else:
        s.check_id(h.m, p, obj, 'finished lookup')
        s.check_values(h.m, p, obj, 'finished lookup')


def keep(w, s, op):
    """keep a view of an item"""
    m, p = op['m'], op['p']
    if not s.loaded(m):
        # a view can be made from the path
        s.views.append((m, p, s.selector(op['r'])(f'{m}.{p}')))
        return
    s.views.append((m, p, s.must('selecting', s.path_of, s.selector(op['r']), m, p)))


def oldview(w, s, op):
    if not s.views:
        return
    m, p, v = s.views[op['r'] % len(s.views)]
    if not s.loaded(m):
        s.fails(f'{op} {m}.{p}', lambda: v.item)
        return
    w.count('nontrivial')
    use_view(w, s, m, p, v, op['r'], 'old view')


def use_view(w, s, m, p, v, r, what):
    it = s.d.items.by_name[s.model.items[m][p].name]
    how = ['item', 'call', 'get', 'run', 'attr', 'arg'][r % 6]
    if how == 'item':
        obj = s.must(what, lambda: v.item)
        s.check_id(m, p, obj, what)
        s.check_values(m, p, obj, what)
        return
    if how == 'get':
        obj = s.must(what, s.d.pms[m].get, v)
        s.check_id(m, p, obj, what)
        s.check_values(m, p, obj, what)
        return
    s.model.touch(m, p)
    want = s.want(m, p)
    if how in ('call', 'run'):
        if how == 'run':
            res = s.quiet(s.d.pms[m].run, v)
        else:
            res = s.quiet(v)
            if it['k'] == 'c':
                s.check_id(m, p, res, what)
                res = s.quiet(res)
        site, args = P.strip(res)
        if site != s.d.items.site(it['n']) or not same(args, want):
            raise Violation('wrong-values', f'{what}: {how} of {m}.{p} gave {res}, expected {want}')
        return
    names = list(want)
    if it['k'] == 'f':
        kw = s.must(what, lambda: v.keywords)
        args = {n: kw[n] for n in names}
    else:
        args = {n: s.must(what, getattr, v, n) for n in names}
    if not same(args, want):
        raise Violation('wrong-values', f'{what}: attributes of {m}.{p} are {args}, expected {want}')


def typo(w, s, op):
    """a lookup of something which does not exist fails"""
    m, p, how = op['m'], op['p'], op['how']
    pm = s.d.pms[m]
    parts = p.split('.')
    i = op['at'] % len(parts)
    bad = list(parts)
    bad[i] = bad[i] + '_x'
    bp = '.'.join(bad)
    sel = s.selector(op['r'])
    if how == 'get':
        s.fails(f'get {bp}', pm.get, bp)
    elif how == 'run':
        s.fails(f'run {bp}', pm.run, bp)
    elif how == 'dotted':
        s.fails(f'attribute {bp}', walk, pm, bad)
    elif how == 'hasattr':
        o = w.call(hasattr, walk(pm, parts[:i]) if s.loaded(m) else pm, bad[i])
        if o.ok and o.value:
            raise Violation('error-hidden', f'hasattr {bp}')
    elif how == 'sel':
        s.fails(f'selecting {m}.{bp}', s.path_of, sel, m, bp)
    elif how == 'call':
        s.fails(f'selecting {m}.{bp}', lambda: sel(f'{m}.{bp}').item)
    elif how == 'attr':
        if s.loaded(m):
            s.model.touch(m, p)
        s.fails(f'attribute of {m}.{p}', lambda: s.path_of(sel, m, p).nosuchattribute)
    elif how == 'arg':
        s.fails(f'get of {p}.nosuch', pm.get, p + '.nosuch.thing')
        if s.loaded(m):
            s.model.touch(m, p)
    elif how == 'section':
        s.fails('get of an unknown section', pm.get, 'nosection')
    elif how == 'manager':
        s.fails('item of an unknown manager', lambda: s.path_of(sel, 'nomanager', p).item)


def section(w, s, op):
    """getting a section gives its items"""
    m, sec = op['m'], op['p']
    if not s.loaded(m):
        s.fails(f'{op}', s.d.pms[m].get, sec)
        return
    pr = s.d.projects[m]
    items = [p for p in s.model.items[m] if p.startswith(sec + '.')]
    o = w.call(s.d.pms[m].get, sec)
    mixed = has_mixed(pr, sec)
    for p in items:
        s.model.touch(m, p)
    if not o.ok:
        if mixed and isinstance(o.exc, ValueError):
            return
        w.must('getting a section', _raise, o.exc)
    check_section(s, m, sec, o.value, items)


def has_mixed(pr, sec):
    """a section with both items and sections, which cannot be got"""
    items = [p for p, _, _ in C.all_items(pr) if p.startswith(sec + '.')]
    secs = {p.rpartition('.')[0] for p in items}
    for x in secs:
        if any(y.startswith(x + '.') for y in secs):
            return True
    return False


def check_section(s, m, sec, got, items):
    if isinstance(got, dict):
        subs = list(dict.fromkeys(p[len(sec) + 1:].split('.')[0] for p in items))
        got = {k: v for k, v in got.items() if k in subs or v not in ([], {})}     # without empty sections
        if sorted(got) != sorted(subs):
            raise Violation('wrong-section', f'getting {sec} gave {list(got)}, expected {subs}')
        for x in subs:
            check_section(s, m, f'{sec}.{x}', got[x], [p for p in items if p.startswith(f'{sec}.{x}.')])
        return
    if not isinstance(got, list) or len(got) != len(items):
        raise Violation('wrong-section', f'getting {sec} gave {short(got)}, expected {items}')
    for p, obj in zip(items, got):
        it = s.d.items.by_name[s.model.items[m][p].name]
        if it['k'] == 'c' and isinstance(obj, functools.partial):
            # sections have general classes with their configuration instead of the objects
            s.check_id(m, p + ' in section', obj, 'section')
            if obj.func.__name__ != it['n'] or not same(obj.keywords, s.want(m, p)):
                raise Violation('wrong-values', f'section {sec} has {short(obj)} for {m}.{p}, expected {s.want(m, p)}')
            continue
        s.check_id(m, p, obj, 'section')
        s.check_values(m, p, obj, 'section')


def contains(w, s, op):
    m, p = op['m'], op['p']
    sel = s.selector(op['r'])
    if not s.loaded(m):
        return
    r = op['r']
    parts = p.split('.')
    inside = '.'.join(parts[:1 + r % len(parts)])
    for x, want in [(f'{m}.{inside}', True), (f'{m}.{inside}_x', False), (m, True), (f'{m}.{p}', True),
                    (f'{m}.{p}.a', False), (f'{m}.nosuch.{p}', False)]:
        got = s.must('in', sel.__contains__, x)
        if got is not want:
            raise Violation('wrong-contains', f'{x} in selector: {got}')


def dir_(w, s, op):
    m, p = op['m'], op['p']
    sel = s.selector(op['r'])
    if not set(s.d.pms) <= set(s.must('dir', dir, sel)):
        raise Violation('wrong-dir', f'dir(selector): {dir(sel)}')
    if not s.loaded(m):
        s.must('dir', dir, s.d.pms[m])
        return
    parts = p.split('.')
    for i in range(1, len(parts)):
        got = s.must('dir', dir, s.must('selecting', s.path_of, sel, m, '.'.join(parts[:i])))
        if parts[i] not in got:
            raise Violation('wrong-dir', f'{parts[i]} is not in dir of {m}.{parts[:i]}: {got}')
    got = s.must('dir', dir, s.d.pms[m])
    if parts[0] not in got:
        raise Violation('wrong-dir', f'{parts[0]} is not in dir of {m}: {got}')
    w.call(dir, s.path_of(sel, m, p))


def type_(w, s, op):
    m, p = op['m'], op['p']
    if not s.loaded(m):
        return
    v = s.must('selecting', s.path_of, s.selector(op['r']), m, p)
    it = s.d.items.by_name[s.model.items[m][p].name]
    t = s.must('type', lambda: v.type)
    if it['k'] == 'f':
        ok = t is types.FunctionType
    else:
        ok = getattr(t, '__name__', None) == it['n'] and s.must('isinstance', isinstance, v, t)
    if not ok:
        raise Violation('wrong-type', f'the type of {m}.{p} is {t}')


def repr_(w, s, op):
    m, p = op['m'], op['p']
    if not s.loaded(m):
        return
    v = s.must('selecting', s.path_of, s.selector(op['r']), m, p)
    if f'{m}.{p}' not in s.must('repr', repr, v):
        raise Violation('wrong-repr', repr(v))
    for h in s.handles[-2:]:
        w.call(repr, h.obj)
    w.call(repr, s.d.pms[m])
    for x in ('_repr_html_', '__wrapped__', 'shape', '_ipython_display_'):
        w.call(getattr, s.d.pms[m], x, None)
        if s.handles:
            w.call(getattr, s.handles[-1].obj, x, None)


def eq(w, s, op):
    m, p = op['m'], op['p']
    if not s.loaded(m):
        return
    v = s.must('selecting', s.path_of, s.selector(op['r']), m, p)
    u = s.must('selecting', s.path_of, s.selector(op['r'] + 1), m, p)
    if not s.must('comparing', v.__eq__, u) or hash(v) != hash(u):
        raise Violation('wrong-eq', f'two views of {m}.{p} differ')
    for m2, p2, x in s.views:
        if (m2, p2) != (m, p) and s.loaded(m2) and s.must('comparing', v.__eq__, x):
            raise Violation('wrong-eq', f'views of {m}.{p} and {m2}.{p2} are equal')


def copy_(w, s, op):
    m, p = op['m'], op['p']
    if not s.loaded(m):
        return
    if any(isinstance(x, (int, str, list, dict, tuple, float, type(None), bool)) is False for x in s.want(m, p).values()):
        return
    v = s.must('selecting', s.path_of, s.selector(op['r']), m, p)
    c = s.must('copying', copy.deepcopy, v)
    if c is s.must('lookup', lambda: v.item):
        raise Violation('wrong-copy', f'the copy of {m}.{p} is the item')
    s.check_values(m, p, c, 'copy')


def mgr(w, s, op):
    from pyfileconf import PipelineManager as PM
    m, p = op['m'], op['p']
    pm = s.d.pms[m]
    if s.must('lookup', PM.get_manager_by_section_path_str, f'{m}.{p}') is not pm:
        raise Violation('wrong-manager', f'of {m}.{p}')
    if s.must('lookup', PM.get_manager_by_filepath, w.path(s.d.rel(m, p))) is not pm:
        raise Violation('wrong-manager', f'of {s.d.rel(m, p)}')
    s.fails('unknown file', PM.get_manager_by_filepath, w.path('src/um0.py'))
    s.fails('unknown manager', PM.get_manager_by_section_path_str, 'nomanager.' + p)
    s.fails('longer file name', PM.get_manager_by_filepath, w.path(s.d.projects[m]['folder'].split('/')[0] + '_x/f.py'))


def gc_(w, s, op):
    """drop some of what was kept"""
    if s.handles and op['r'] % 3:
        del s.handles[op['r'] % len(s.handles)]
    if s.views and op['r'] % 2:
        del s.views[op['r'] % len(s.views)]
    gc.collect()


def no_props(what):
    import sys
    if sys.modules['simrt'].props:
        raise Violation('property-executed', f'{what} executed a property: {short(sys.modules["simrt"].props)}')


def prop(w, s, op):
    """a property of an item is only executed when it is asked for, and with the configuration of the item"""
    import sys
    m, p, how, r = op['m'], op['p'], op['how'], op['r']
    it = s.d.items.by_name[s.model.items[m][p].name]
    if it['k'] != 'c':
        return
    sel = s.selector(r)
    name = 'meth' if how == 'method' else 'prop'

    def ask():
        if how == 'method':
            return [lambda: s.path_of(sel, m, p).meth(), lambda: getattr(s.d.pms[m].get(p), 'meth')(),
                    lambda: s.path_of(sel, m, p).item.meth()][r % 3]()
        if how == 'sel':
            return s.path_of(sel, m, p).prop
        if how == 'get':
            return s.d.pms[m].get(p).prop
        if how == 'old':
            old = [v for m2, p2, v in s.views if (m2, p2) == (m, p)]
            return (old[r % len(old)] if old else sel(f'{m}.{p}')).prop
        return walk(s.d.pms[m], p.split('.')).prop

    if not s.loaded(m):
        if how == 'in':
            return
        s.fails(f'{op}', ask)
        no_props(f'{op}')
        return
    if how == 'in':
        got = s.must('in', sel.__contains__, f'{m}.{p}.prop')
        if got is not False:
            raise Violation('wrong-contains', f'{m}.{p}.prop in selector: {got}')
        no_props(f'{op}')
        return
    w.count('op:prop-' + how)
    s.model.touch(m, p)
    props = sys.modules['simrt'].props
    site = s.d.items.site(it['n'])
    want = s.want(m, p)
    try:
        if op['do']:
            w.set_user_faults([{'site': f'cfg:prop:{site}', 'do': op['do']}])
            s.fails(f'{op}', ask)
            w.set_user_faults()
            if not props:
                raise Violation('property-not-executed', f'{op}')
        elif how == 'hasattr':
            if s.must('hasattr', hasattr, s.path_of(sel, m, p), 'prop') is not True:
                raise Violation('error-hidden', f'{m}.{p} has no prop')
        else:
            at, seen = s.must(f'{name} of {m}.{p}', ask)
            if at != site or not same(strip(seen, want), want):
                raise Violation('wrong-values', f'{op} gave {at} {seen}, expected {want}')
        for at, seen in props:
            if at != site or not same(strip(seen, want), want):
                raise Violation('wrong-values', f'{op} executed {name} of {at} with {seen}, expected {want}')
    finally:
        props.clear()


def strip(seen, want):
    return {k: v for k, v in seen.items() if k in want or not k.startswith('_')}


DISPATCH = {'see': see, 'ident': ident, 'open': open_, 'cont': cont, 'finish': finish, 'keep': keep, 'oldview': oldview,
            'typo': typo, 'section': section, 'contains': contains, 'dir': dir_, 'type': type_, 'repr': repr_, 'eq': eq,
            'copy': copy_, 'mgr': mgr, 'gc': gc_, 'prop': prop}
