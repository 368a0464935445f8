"""C13: created entries are permanent and equivalent to declared ones"""
import json
import random
import sys

from .. import seams
from ..seams import CLOCK, DISK
from ..world import Violation, short
from . import proj as P
from . import disk
from .c02 import diff

RUNS = {'quick': 700, 'thorough': 60000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is a project in which entries are created one after another (functions, classes and class entries, new '
        'and existing sections, any depth, several modules and packages, objects imported before or after a reload, by '
        'the running script or from a module which imports them), with updates, edits, resets, runs, reloads, restarts, '
        'failing and refused creations in between, disk errors and crashes in creations, and a mirror project which '
        'declares all these entries from the start and goes through the same history without the creations; '
        'non-trivial: an entry was created')
STATES = 'hash of (created entries, what every entry runs with) after each operation'
ASSUMPTIONS = ['entries of one project with the same name are the same function or class',
               'functions and classes can be imported by their name from a module']

NAMES = {'um0': ['f0', 'f1', 'K0'], 'um1': ['f2', 'f3', 'K1'], 'pk.mod': ['f4', 'K2'], 'pk.sub.deep': ['f5']}


def gen_modules(rng):
    mods = {}
    for mod, names in NAMES.items():
        mods[mod] = [{'k': 'f' if n[0] == 'f' else 'c', 'n': n,
                      'args': P.gen_args(rng, rng.choice([['a', 'b', 'c'], ['x', 'a', 'y'], ['b', 'x', 'c']]),
                                         required=n[0] == 'f')} for n in names]
    mods['umd'] = [{'k': 'd', 'n': 'D0', 'args': P.gen_args(rng, ['a', 'y'], required=False)}]
    if rng.random() < 0.3:
        mods['umd'][0]['key'] = 'ident'
    return mods


def add(tree, secs, name):
    """what create() has to do to the nested dict. False if there is no place for such an entry"""
    cur = tree
    for s in secs[:-1]:
        if not isinstance(cur, dict):
            return False
        cur = cur.setdefault(s, {})
    if not isinstance(cur, dict):
        return False
    last = cur.setdefault(secs[-1], [])
    if not isinstance(last, list):
        return False
    if name not in last:
        last.append(name)
    return True


def fits(tree, secs, name):
    if not add(json.loads(json.dumps(tree)), secs, name):
        return False
    path = '.'.join(list(secs) + [name])
    entries = [f'{s}.{n}' for s, n in P.tree_paths(tree)]
    # an item cannot be a section as well
    return not any(p.startswith(path + '.') or path.startswith(p + '.') for p in entries)


def gen_sec(rng):
    d = rng.choice([1, 1, 2, 2, 3])
    secs = [rng.choice(['s0', 's1', 's10', 'new', 's0_', 'S1'])]
    while len(secs) < d:
        secs.append(rng.choice(['t0', 't1', 't10', 's0_', 'S1', secs[-1], 's0']))
    return secs


def gen(rng, tier):
    mods = gen_modules(rng)
    spec = rng.random() < 0.6
    where = {n: m for m, ns in NAMES.items() for n in ns}
    trees = {'': {}}
    if spec:
        trees['ex'] = {}
    declared, created = [], []
    for i in range(rng.randint(2, 9 if tier == 'thorough' else 7)):
        for _ in range(20):
            pre = 'ex' if spec and rng.random() < 0.35 else ''
            secs = gen_sec(rng)
            if created + declared and rng.random() < 0.4:
                other = rng.choice(created + declared)
                if other[0] == pre:
                    secs = list(other[1])
                    if rng.random() < 0.3:
                        secs = secs + ['sub']
            name = rng.choice(['d0', 'd1', 'd2', 'd10']) if pre else rng.choice(sorted(where))
            if [pre, secs, name] in declared + created or not fits(trees[pre], secs, name):
                continue
            add(trees[pre], secs, name)
            if not created and rng.random() < 0.45:
                declared.append([pre, secs, name])
            else:
                created.append([pre, secs, name])
            break
    if not created:
        created.append(declared.pop())
    case = {'modules': mods, 'spec': spec, 'declared': declared, 'created': created}
    if spec and rng.random() < 0.3:
        case['always'] = {'always_import_strs': ['from copy import deepcopy'], 'always_assign_strs': ['local_thing = 5']}
    case['hold'] = rng.choice(['fresh', 'fresh', 'hold', 'main', 'reexport'])
    ops = [{'op': 'start', 'swap': rng.random() < 0.5}]
    pre = [x for x in created if rng.random() < 0.12]
    for x in pre:
        ops.insert(0, {'op': 'prewrite', 'e': x, 'r': rng.randrange(1 << 16)})
    have = list(declared)
    todo = list(created)
    n = rng.randint(2, 14 if tier == 'thorough' else 9)
    while todo or n > 0:
        k = rng.random()
        if todo and (k < 0.4 or n <= 0):
            e = todo.pop(0)
            op = {'op': 'create', 'e': e, 'look': rng.random() < 0.8}
            if rng.random() < 0.25:
                op['fault'] = rng.choice([
                    {'kind': 'crash', 'pos': round(rng.random(), 3), 'frac': round(rng.random(), 2)},
                    {'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES']), 'pos': round(rng.random(), 3),
                     'frac': round(rng.random(), 2), 'again': rng.choice(['same', 'reload', 'other'])}])
            ops.append(op)
            have.append(e)
        elif k < 0.48:
            ops.append({'op': 'reload', 'swap': rng.random() < 0.5})
        elif k < 0.54:
            ops.append({'op': 'restart'})
            ops.append({'op': 'start', 'swap': rng.random() < 0.5})
        elif k < 0.6:
            ops.append({'op': 'refused', 'sec': gen_sec(rng), 'n': rng.choice(sorted(where)), 'how': rng.choice(
                ['place', 'place', 'clash', 'local', 'nofunc', 'short', 'func'])})
        elif have:
            e = rng.choice(have)
            v = rng.randrange(100, 10000)
            how = rng.choice(['update', 'update', 'edit', 'edit', 'reset', 'refresh', 'run', 'again', 'section', 'view',
                              'product'])
            op = {'op': how, 'e': e, 'v': v, 'arg': rng.randrange(4)}
            if how == 'edit':
                op['after'] = rng.choice(['refresh', 'reset', 'reload'])
            if how == 'view':
                op['to'] = rng.choice(have)
            if how == 'section':
                op['depth'] = rng.randint(1, 3)
            ops.append(op)
        n -= 1
    ops.append({'op': 'reload', 'swap': False})
    ops.append({'op': 'restart'})
    ops.append({'op': 'start', 'swap': True})
    case['ops'] = ops
    if rng.random() < 0.3:
        # the dict files import something which has the name of an entry, under another name
        case['alias'] = rng.choice([x[2] for x in declared + created if not x[0]] or [None])
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


# ---------------------------------------------------------------- running

def path_of(e):
    pre, secs, name = e
    return '.'.join(([pre] if pre else []) + secs + [name])


class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.items = P.Items(w.case)
        self.st = w.state
        self.st.setdefault('have', [])
        self.pm = self.md = None
        self.held = {}

    def spec(self):
        if not self.case['spec']:
            return []
        sc = {'name': 'ex', 'class': 'D0'}
        key = self.items.by_name['D0'].get('key')
        if key:
            sc['key_attr'] = key
        sc.update(self.case.get('always', {}))
        return [sc]

    def trees(self, entries):
        trees = {'': {}, 'ex': {}}
        for pre, secs, name in entries:
            add(trees[pre], secs, name)
        return trees

    def write(self):
        w = self.w
        for mod, items in self.case['modules'].items():
            w.write('src/' + mod.replace('.', '/') + '.py', P.module_src(mod, items))
        w.write('src/pk/__init__.py', 'from pk.mod import f4, K2\nfrom pk.sub import deep\n')
        w.write('src/pk/sub/__init__.py', '')
        w.write('src/aall.py', ''.join(f"from {m} import {', '.join(ns)}\n" for m, ns in NAMES.items()))
        w.write('src/other.py', P.module_src('other', [dict(it, n=it['n']) for m in NAMES for it in
                                                       self.case['modules'][m]]))
        for folder, entries in (('pm', self.case['declared']), ('md', self.case['declared'] + self.case['created'])):
            trees = self.trees(entries)
            text = P.dict_src(trees[''], self.items.where)
            if self.case.get('alias'):
                text = f"from other import {self.case['alias']} as not_used\n" + text
            w.write(f'{folder}/pipeline_dict.py', text)
            if self.case['spec']:
                w.write(f'{folder}/ex_dict.py', f"class_dict = {P.tree_src(trees['ex'], True)}\n")
        self.st['have'] = list(self.case['declared'])

    def item(self, e):
        return self.items.by_name['D0' if e[0] else e[2]]

    def managers(self, swap=False):
        out = [('pm', self.pm), ('md', self.md)]
        return out[::-1] if swap else out

    def func(self, name, fresh=False):
        """the function or class as the user's script has it"""
        import importlib
        how = self.case['hold']
        if how == 'reexport':
            return getattr(importlib.import_module('aall'), name)
        if name in self.held and not fresh:
            return self.held[name]
        f = getattr(importlib.import_module(self.items.where[name]), name)
        if how in ('hold', 'main'):
            self.held[name] = f
        if how == 'main':
            setattr(sys.modules['__main__'], name, f)
        return f

    def start(self, op):
        w = self.w
        pr = {'spec': self.spec()}
        if self.case['hold'] in ('hold', 'main'):
            for name in self.items.where:
                if self.items.by_name[name]['k'] != 'd':
                    self.func(name)
        for name in ('md', 'pm') if op['swap'] else ('pm', 'md'):
            pm = w.must(f'constructing {name}', P.make_manager, w, self.case, dict(pr, name=name, folder=name))
            setattr(self, name, pm)
            w.must(f'loading {name}', pm.load)
        self.compare('after start', full=True)

    # ---- creating
    def create(self, op):
        w, e = self.w, op['e']
        pre, secs, name = e
        sp = '.'.join(([pre] if pre else []) + secs)
        before = self.entries()

        def do():
            if pre:
                self.pm.create(f'{sp}.{name}')
            else:
                self.pm.create(sp, self.func(name))
        f = op.get('fault')
        if f and not self.st.get('crashed'):
            def count():
                DISK.begin(None)
                do()
                return list(DISK.trace)
            steps = P.twin(w, count)
            n = len([x for x in steps if x[2]]) if f['kind'] == 'crash' else len(steps)
            if n:
                plan = {'kind': f['kind'], 'among': 'w' if f['kind'] == 'crash' else 'any',
                        'at': 1 + min(n - 1, int(f['pos'] * n)), 'when': 'before', 'frac': f['frac'], 'span': 1}
                if f['kind'] == 'crash':
                    # the process ends here. What follows happens after the restart
                    self.st['crashed'] = True
                    self.st['pc'] -= 1
                    DISK.begin(plan)
                    w.call(do)
                    DISK.begin(None)
                    self.st['crashed'] = False
                    self.st['pc'] += 1
                else:
                    DISK.begin(plan)
                    o = w.call(do)
                    w.account_faults()
                    DISK.begin(None)
                    w.log('  ->', o if o.ok else type(o.exc).__name__)
                    self.kept(before, f'a creation with {plan}')
                    if f['again'] == 'reload':
                        w.must('reload after a failed creation', self.pm.reload)
                        w.must('reload', self.md.reload)
                    elif f['again'] == 'other':
                        self.start({'swap': False})
        self.st['crashed'] = False
        w.must(f'create {path_of(e)}', do)
        w.count('nontrivial')
        self.st['have'].append(e)
        self.kept(before, f'creating {path_of(e)}')
        now = self.entries()
        trees = self.trees(self.st['have'])
        for pre2, rel, var in self.dicts():
            got = disk.parse_dict(w.read(rel), var)
            if got != trees[pre2]:
                raise Violation('wrong-entries', f'{rel} has {got}, not {trees[pre2]}')
        if path_of(e) not in now:
            raise Violation('wrong-entries', f'{path_of(e)} is not in {now}')
        # what creating resets, is reset in the mirror as well
        w.must('reset in the mirror', self.md.reset, path_of(e))
        if op['look']:
            self.compare('after creation', only=e)

    def dicts(self):
        out = [('', 'pm/pipeline_dict.py', 'pipeline_dict')]
        if self.case['spec']:
            out.append(('ex', 'pm/ex_dict.py', 'class_dict'))
        return out

    def entries(self):
        out = []
        for pre, rel, var in self.dicts():
            text = self.w.read(rel)
            for s, n in P.tree_paths(disk.parse_dict(text, var)):
                out.append(f'{pre}.{s}.{n}' if pre else f'{s}.{n}')
        return out

    def kept(self, before, what):
        now = self.entries()
        for p in before:
            if p not in now:
                raise Violation('entry-lost', f'{what}: {p} is gone')

    def refused(self, op):
        """creations for which there is no place, or no name"""
        w, how, name = self.w, op['how'], op['n']
        trees = self.trees(self.st['have'])
        secs, fn = op['sec'], None
        if how == 'place':
            if fits(trees[''], secs, name):
                return
            def fn(): self.pm.create('.'.join(secs), self.func(name))
        elif how == 'clash':
            if name not in {n for pre, _, n in self.st['have'] if not pre} or not fits(trees[''], secs + ['cl'], name):
                return
            import importlib
            other = getattr(importlib.import_module('other'), name)
            def fn(): self.pm.create('.'.join(secs + ['cl']), other)
        elif how == 'local':
            def local(a=1):
                return a
            # defined in the running script, or in a function
            main = sys.modules['__main__']
            if len(secs) > 1:
                local.__qualname__ = 'local'
                local.__module__ = '__main__'
                main.__spec__ = None
                main.local = local
            if not fits(trees[''], secs, 'local'):
                return
            def fn(): self.pm.create('.'.join(secs), local)
        elif how == 'nofunc':
            def fn(): self.pm.create('.'.join(secs))
        elif how in ('short', 'func'):
            if not self.case['spec']:
                return
            if how == 'short':
                def fn(): self.pm.create('ex.' + secs[0])
            else:
                def fn(): self.pm.create('ex.' + '.'.join(secs) + '.d7', self.func(name))
        before = w.snapshot('pm')
        o = w.call(fn)
        w.log('  ->', 'ok' if o.ok else type(o.exc).__name__)
        if o.ok:
            raise Violation('not-refused', f'{op} succeeded')
        w.count('check:refused')
        after = w.snapshot('pm')
        if after != before:
            raise Violation('refused-changed', f'{op} raised {o!r} and changed ' + diff(after, before))
        self.compare('after a refused creation')

    # ---- comparing
    def look(self, name, pm, e, what):
        """everything that can be seen of an entry"""
        w, path = self.w, path_of(e)
        from pyfileconf import Selector
        it = self.item(e)
        s = Selector()
        out = {'in': f'{name}.{path}' in s}
        site, args = P.strip(w.must(f'{what}: {name}: run {path}', pm.run, path))
        out['site'], out['args'] = site, norm(args)
        obj = w.must(f'{what}: {name}: get {path}', pm.get, path)
        out['get'] = described(obj, it, e)
        view = s
        for part in f'{name}.{path}'.split('.'):
            view = w.must(f'{what}: select {name}.{path}', getattr, view, part)
        out['view'] = (view.type.__name__ if hasattr(view.type, '__name__') else str(type(view.type)),
                       view.section_path_str.partition('.')[2])
        if it['k'] == 'd':
            out['attr'] = norm({a['n']: w.must(f'{what}: attribute', getattr, view, a['n']) for a in it['args']})
        rel = P.config_rel({'folder': name}, path)
        out['file'] = (w.read(rel) or '').replace(f's.{name}.', 's.PM.')
        return out

    def compare(self, what, only=None, full=False):
        w = self.w
        states = []
        order = list(self.st['have'])
        for e in order:
            if only is not None and e != only:
                continue
            a = self.look('pm', self.pm, e, what)
            b = self.look('md', self.md, e, what)
            for k in a:
                if a[k] != b[k]:
                    raise Violation(f'differs-{k}', f'{what}: {path_of(e)} created: {short(a[k], 1200)}\n'
                                                    f'declared: {short(b[k], 1200)}')
            if not a['in']:
                raise Violation('not-selectable', f'{what}: {path_of(e)}')
            w.count('check:entry')
            states.append((path_of(e), repr(a['args'])))
        w.note_state(states)
        if only is None:
            # sections which are complete
            missing = [path_of(e) for e in self.case['declared'] + self.case['created'] if e not in order]
            secs = sorted({'.'.join(p.split('.')[:i]) for e in order for p in [path_of(e)]
                           for i in range(1, p.count('.') + 1)})
            for sec in secs:
                if any(p.startswith(sec + '.') for p in missing):
                    continue
                a = w.call(self.pm.run, sec)
                b = w.call(self.md.run, sec)
                ra = norm(a.value) if a.ok else type(a.exc).__name__
                rb = norm(b.value) if b.ok else type(b.exc).__name__
                if ra != rb:
                    raise Violation('differs-section', f'{what}: running {sec}\ncreated: {ra}\ndeclared: {rb}')
                w.count('check:section')
        if full:
            a, b = w.snapshot('pm'), w.snapshot('md')
            have = {P.config_rel({'folder': 'x'}, path_of(e))[2:] for e in order}
            for rel in sorted(set(a) | set(b)):
                if rel.endswith('_dict.py') or rel.startswith('defaults') and rel not in have and (
                        not rel.endswith('section.py') or rel not in a):
                    continue
                x, y = a.get(rel), b.get(rel)
                if x is None or y is None or x.replace('s.pm.', 's.md.') != y:
                    raise Violation('differs-files', f'{what}: {rel}\ncreated: {x}\ndeclared: {y}')
            w.count('check:files')


def norm(x):
    """without what differs between the two projects"""
    from pyfileconf.selector.models.itemview import is_item_view
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if is_item_view(x):
        return 'view ' + x.section_path_str.partition('.')[2]
    return repr(x)


def described(obj, it, e):
    import functools
    if isinstance(obj, functools.partial):
        return ['partial', getattr(obj.func, '__name__', None), getattr(obj.func, '__module__', None), norm(obj.args),
                norm(obj.keywords)]
    if isinstance(obj, type):
        return ['class', obj.__name__, obj.__module__]
    names = [a['n'] for a in it['args']] + ([it.get('key', 'name')] if it['k'] == 'd' else [])
    return ['object', type(obj).__name__, type(obj).__module__, norm({n: getattr(obj, n, None) for n in names})]


def run(w):
    s = Sim(w)
    st = w.state
    if st['incarnation'] == 0:
        s.write()
        st['pc'] = 0
    elif st.get('crashed'):
        s.start({'swap': False})
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(1.0)
        w.log(st['pc'], op)
        w.count('op:' + op['op'])
        st['pc'] += 1
        if op['op'] == 'restart':
            w.restart()
        step(w, s, op)


def step(w, s, op):
    k = op['op']
    if k == 'prewrite':
        rng = random.Random(op['r'])
        args = [a['n'] for a in s.item(op['e'])['args']]
        text = rng.choice(['', '"""doc"""\n', '# mine\n'])
        if op['e'][0]:
            text += f"{s.item(op['e']).get('key', 'name')} = {op['e'][2]!r}\n"
        for a in args:
            if rng.random() < 0.6:
                text += f'{a} = {rng.randrange(100)}  # kept\n'
        for m in ('pm', 'md'):
            w.write(P.config_rel({'folder': m}, path_of(op['e'])), text)
        return
    if k == 'start':
        s.start(op)
        return
    if s.pm is None:
        return
    if k == 'reload':
        for name, pm in s.managers(op['swap']):
            w.must(f'reload {name}', pm.reload)
        s.compare('after reload', full=True)
        return
    if k == 'refused':
        s.refused(op)
        return
    e = op['e']
    if k == 'create':
        if e not in s.st['have']:
            s.create(op)
        return
    if e not in s.st['have']:
        return
    path = path_of(e)
    args = [a['n'] for a in s.item(e)['args']]
    arg = args[op['arg'] % len(args)]
    if k == 'update':
        for name, pm in s.managers(op['v'] % 2):
            w.must(f'update {name}', pm.update, {arg: op['v']}, path)
    elif k == 'edit' or k == 'view':
        for name, pm in s.managers():
            rel = P.config_rel({'folder': name}, path)
            if k == 'view':
                # with statements of the user's own choice, the file need not define s
                if op['to'] not in s.st['have'] or op['to'] == e or (e[0] and s.case.get('always')):
                    return
                value = f's.{name}.{path_of(op["to"])}'
            else:
                value = op['v']
            w.write(rel, P.set_line(w.read(rel), arg, value))
        how = op.get('after', 'refresh')
        for name, pm in s.managers():
            w.must(how, getattr(pm, how), *([] if how == 'reload' else [path]))
    elif k in ('reset', 'refresh', 'run'):
        for name, pm in s.managers():
            w.must(k, getattr(pm, k), path)
    elif k == 'again':
        # creating what exists keeps everything
        before = w.snapshot('pm')
        pre, secs, n = e
        if pre:
            w.must('creating again', s.pm.create, path)
        else:
            w.must('creating again', s.pm.create, path.rpartition('.')[0], s.func(n))
        after = w.snapshot('pm')
        for rel in sorted(set(before) | set(after)):
            if before.get(rel) != after.get(rel) and not rel.endswith('_dict.py'):
                raise Violation('again-changed', f'{op}: {rel}: {before.get(rel)!r} became {after.get(rel)!r}')
        w.must('reset in the mirror', s.md.reset, path)
        trees = s.trees(s.st['have'])
        for pre2, rel, var in s.dicts():
            got = disk.parse_dict(w.read(rel), var)
            if got != trees[pre2]:
                raise Violation('wrong-entries', f'{rel} has {got}, not {trees[pre2]}')
    elif k == 'section':
        secs = path.split('.')[:-1][:op['depth']]
        rel = '/'.join(secs) + '/section.py'
        for m in ('pm', 'md'):
            w.write(f'{m}/defaults/{rel}', f'{arg} = {op["v"]}\n')
        for name, pm in s.managers(op['v'] % 2):
            w.must(f'reload {name}', pm.reload)
    elif k == 'product':
        out = []
        for name, pm in s.managers():
            cases = [{'section_path_str': path, arg: op['v'] + i} for i in range(3)]
            r = w.must('iterate', pm.run_product, path, cases)
            out.append([norm(x) for _, x in r] if isinstance(r, list) else repr(r))
        if out[0] != out[1]:
            raise Violation('differs-product', f'{path}: created: {out[0]}\ndeclared: {out[1]}')
    s.compare(f'after {k}')
