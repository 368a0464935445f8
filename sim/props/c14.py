"""C14: edits on disk are always picked up"""
import ast
import json
import os
import random
import re
import sys

from ..seams import CLOCK, DISK
from ..world import Violation, short, where
from . import proj as P

RUNS = {'quick': 1000, 'thorough': 80000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is one or two projects whose config files, section files, dictionary files and the modules of whose '
        'functions and classes (also in packages, re-exported, shared by the projects, imported by config files first, '
        'and created later) are edited again and again, with the same size or not and with time stamps which advance, '
        'stand still, are coarse or go back, bytecode caches on, and with runs, updates, iterations, refreshes, resets, '
        'reloads and restarts in between; non-trivial: something edited was used afterwards')
STATES = 'hash of what every item runs with after each operation'
ASSUMPTIONS = ['modules which the running script has imported itself are not imported again by reload',
               'what Python itself imports from stale bytecode at the start of a process is only corrected by reload']

SECS = ['s0', 's1', 's0.t0', 's1.t0.u0', 's10']
# where a name can be imported from, and where it is defined
MODS = {'um0': ['f0', 'f1', 'K0'], 'um1': ['f0', 'f2', 'K1'], 'pk.mod': ['f1', 'f3', 'K0'], 'pk.sub.deep': ['f2', 'f4']}
NEWMODS = {'um2': ['f0', 'f5'], 'pk.new': ['f1', 'K1'], 'nk.mod': ['f4', 'f5']}
SIZE = 3000


def gen_source(rng, names):
    return {'tag': f'v{rng.randrange(1000, 10000)}', 'const': rng.randrange(1000, 10000),
            'items': [{'k': 'f' if n[0] == 'f' else 'c', 'n': n,
                       'args': P.gen_args(rng, rng.choice([['a', 'b', 'c'], ['x', 'a', 'y'], ['b', 'x', 'c']]),
                                          required=n[0] == 'f')} for n in names]}


def gen_entries(rng, mods):
    out = {}
    for _ in range(rng.randint(2, 6)):
        mod = rng.choice(sorted(mods))
        name = rng.choice(mods[mod])
        sec = rng.choice(SECS)
        # one module for a name in the whole dictionary file
        mod = out.setdefault(name, [mod, []])
        if sec not in mod[1]:
            mod[1].append(sec)
    return ok_entries(out)


def ok_entries(entries):
    """{name: [module it is imported from, sections]}, without sections within sections which have items"""
    used = {s for _, secs in entries.values() for s in secs}
    out = {}
    for name, (mod, secs) in entries.items():
        secs = [s for s in secs if not any(u.startswith(s + '.') for u in used)]
        if secs:
            out[name] = [mod, secs]
    return out


def gen(rng, tier):
    mgrs = ['pm'] if rng.random() < 0.5 else ['pm', 'pm2']
    case = {'mgrs': mgrs, 'sources': {m: gen_source(rng, ns) for m, ns in MODS.items()},
            'entries': {m: gen_entries(rng, MODS) for m in mgrs},
            'spec': {m: (sorted(rng.sample(['d0', 'd1', 'd10'], rng.randint(1, 2))) if rng.random() < 0.4 else None)
                     for m in mgrs},
            'dargs': P.gen_args(rng, ['x', 'y'], n=2, required=False),
            'clock': rng.choice(['on', 'frozen', 'frozen', 'coarse', 'back', 'random', 'zero', 'far']),
            'pad': rng.random() < 0.7,
            'dirs': rng.choice(['on', 'frozen'])}
    for m in mgrs:
        if not case['entries'][m]:
            case['entries'][m] = {'f0': ['um0', ['s0']]}
    # config files which the user has written before, and which import the items' modules
    case['before'] = rng.choice([[], mgrs])
    case['before_r'] = rng.randrange(1 << 20)
    ops = [{'op': 'start'}]
    n = rng.randint(3, 24 if tier == 'thorough' else 14)
    while n > 0:
        n -= 1
        m = rng.choice(mgrs)
        k = rng.random()
        op = {'m': m, 'r': rng.randrange(1 << 20)}
        if k < 0.3:
            op['op'] = 'edit'
            op['how'] = rng.choice(['set', 'set', 'set', 'def', 'import', 'importfirst', 'calc', 'rewrite', 'drop'])
            op['sync'] = rng.choice(['refresh', 'reset', 'reload', 'refresh', 'reset', None])
        elif k < 0.46:
            op['op'] = 'source'
            op['mod'] = rng.choice(sorted(MODS) + sorted(NEWMODS))
            op['how'] = rng.choice(['tag', 'tag', 'tag', 'add', 'remove', 'default', 'const'])
            op['sync'] = rng.choice(['reload', 'reload', None])
        elif k < 0.62:
            op['op'] = 'dict'
            op['how'] = rng.choice(['add', 'remove', 'move', 'rebind', 'rebind', 'new'])
            op['sync'] = rng.choice(['reload', 'reload', None])
        elif k < 0.68:
            op['op'] = 'spec'
            op['how'] = rng.choice(['add', 'remove'])
            op['sync'] = rng.choice(['reload', 'reload', None])
        elif k < 0.76:
            op['op'] = 'section'
            op['sync'] = rng.choice(['reload', 'reload', None])
        elif k < 0.9:
            op['op'] = rng.choice(['run', 'get', 'update', 'product', 'view', 'lasting', 'import', 'sections'])
        elif k < 0.97:
            op['op'] = rng.choice(['refresh', 'reset', 'reload', 'reload'])
        else:
            op['op'] = 'restart'
        if 'sync' in op:
            op['mtime'] = rng.choice([None, None, None, 'frozen', 'back'])
            if n and rng.random() < 0.25:
                # the same again, right away
                ops.append(op)
                op = dict(op, r=op['r'] + 1)
        if op['op'] == 'restart':
            ops.append(op)
            op = {'op': 'start'}
        ops.append(op)
    for m in mgrs:
        ops.append({'op': 'reload', 'm': m, 'r': 0})
    case['ops'] = ops
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


# ---------------------------------------------------------------- files

def pad(case, text):
    """files which are edited keep their size"""
    text = ''.join(line for line in text.splitlines(keepends=True) if not line.startswith('#='))
    if not case['pad']:
        return text
    if text and not text.endswith('\n'):
        text += '\n'
    return text + '#' + '=' * max(1, SIZE - len(text) - 2) + '\n'


def source_text(mod, src):
    extra = f'CONST = {src["const"]}\n\n\n'
    return P.module_src(mod, src['items'], src['tag'], extra)


def defined_in(mod, name, sources):
    """the module which defines what is imported from mod"""
    return 'pk.mod' if mod == 'pk' else 'um0' if mod == 'rex' else mod


class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.st = w.state
        self.pms = {}

    # ---- state
    def setup(self):
        w, case, st = self.w, self.case, self.st
        st['pc'] = 0
        st['sources'] = json.loads(json.dumps(case['sources']))
        st['entries'] = json.loads(json.dumps(case['entries']))   # on disk
        st['specs'] = json.loads(json.dumps(case['spec']))
        st['loaded'] = {}       # manager -> {path: [module, name]} as of its last load
        st['file'] = {m: {} for m in case['mgrs']}      # on disk: path -> {arg: value}
        st['vals'] = {m: {} for m in case['mgrs']}      # as of the last refresh, reset or load
        st['sec'] = {m: {} for m in case['mgrs']}       # on disk
        st['secvals'] = {m: {} for m in case['mgrs']}
        st['over'] = {m: {} for m in case['mgrs']}      # updates: path -> [transient, lasting]
        st['src'] = {m: {} for m in case['mgrs']}       # what was imported: module -> source
        st['dfile'] = {m: [] for m in case['mgrs']}     # items whose files were edited
        st['dsrc'] = {m: [] for m in case['mgrs']}      # modules which were edited
        st['dsec'] = {m: [] for m in case['mgrs']}
        for mod, src in st['sources'].items():
            self.put(f"src/{mod.replace('.', '/')}.py", source_text(mod, src))
        w.write('src/pk/__init__.py', 'from pk.mod import f1, f3, K0\n')
        w.write('src/pk/sub/__init__.py', '')
        w.write('src/nk/__init__.py', '')
        w.write('src/rex.py', 'from um0 import f0, f1, K0\n')
        w.write('src/umd.py', P.module_src('umd', [{'k': 'd', 'n': 'D0', 'args': case['dargs']}]))
        for m in case['mgrs']:
            self.put_dicts(m)

        rng = random.Random(case['before_r'])
        for m in case['before']:
            for path, (mod, name) in sorted(self.paths(m).items()):
                if mod == 'umd' or rng.random() < 0.4:
                    continue
                dmod = rng.choice(sorted({defined_in(*x, st['sources']) for x in self.paths(m).values()} - {'umd'}))
                arg = rng.choice([a['n'] for a in self.item(mod, name, st['sources'])['args']])
                self.put(self.rel(m, path), f'from {dmod} import CONST as cst_{dmod.replace(".", "_")}\n'
                                            f'{arg} = cst_{dmod.replace(".", "_")}\n')
                st['file'][m][path] = {arg: ['const', dmod]}

    def put(self, rel, text, mtime=None):
        w, kind = self.w, self.case['clock']
        if mtime == 'frozen':
            kind = 'frozen'
        n = self.st['edits'] = self.st.get('edits', 0) + 1
        t = {'on': CLOCK.now, 'frozen': 1_700_000_000, 'coarse': int(CLOCK.now) // 2 * 2,
             'back': 1_700_000_000 - n, 'random': 1_600_000_000 + (n * 7919) % 5, 'zero': 0, 'far': (1 << 33) + n % 2}[kind]
        if mtime == 'back':
            t = max(0, t - 1000)
        old = w.read(rel)
        text = pad(self.case, text)
        if old is not None:
            was = os.stat(w.path(rel)).st_mtime
            if t <= was:
                w.count('fault:time-stamp-' + ('same' if t == was else 'back') + ('-same-size' if len(old) == len(text) else ''))
        w.write(rel, text, mtime=t)
        if self.case['dirs'] == 'frozen':
            was, DISK.active = DISK.active, False
            for d, _, _ in os.walk(w.path('src')):
                os.utime(d, (1_700_000_000, 1_700_000_000))
            DISK.active = was

    def put_dicts(self, m, mtime=None):
        tree, imports = {}, []
        for name, (mod, secs) in self.st['entries'][m].items():
            imports.append(f'from {mod} import {name}\n')
            for sec in secs:
                cur = tree
                parts = sec.split('.')
                for p in parts[:-1]:
                    cur = cur.setdefault(p, {})
                cur.setdefault(parts[-1], []).append(name)
        self.put(f'{m}/pipeline_dict.py', ''.join(imports) + f'\npipeline_dict = {P.tree_src(tree, False)}\n', mtime)
        if self.st['specs'][m] is not None:
            self.put(f'{m}/ex_dict.py', f'class_dict = {{"s0": {self.st["specs"][m]!r}}}\n', mtime)

    def paths(self, m):
        """{path: [module, name]} of the dictionary files on disk"""
        out = {}
        for name, (mod, secs) in self.st['entries'][m].items():
            for sec in secs:
                out[f'{sec}.{name}'] = [mod, name]
        for n in self.st['specs'][m] or ():
            out[f'ex.s0.{n}'] = ['umd', 'D0']
        return out

    def item(self, mod, name, sources):
        if mod == 'umd':
            return {'k': 'd', 'n': 'D0', 'args': self.case['dargs']}
        src = sources[defined_in(mod, name, sources)]
        return next(it for it in src['items'] if it['n'] == name)

    # ---- what must be seen
    def scaffold(self, m, path, mod, name):
        """a load adds the arguments which the file does not mention"""
        file = self.st['file'][m].setdefault(path, {})
        it = self.item(mod, name, self.st['sources'])
        if it['k'] == 'd':
            file.setdefault('name', ['lit', path.split('.')[-1]])
        for n, default in self.defaults(mod, name).items():
            file.setdefault(n, default)

    def defaults(self, mod, name):
        return {a['n']: ['lit', None if a['d'] is None else eval(a['d'])]
                for a in self.item(mod, name, self.st['sources'])['args']}

    def loaded(self, m, restart=False):
        st = self.st
        had = {x.split('.')[0] for mod, name in st['loaded'].get(m, {}).values()
               for x in (mod, defined_in(mod, name, st['sources']))}
        st['loaded'][m] = self.paths(m)
        unknown = {x for x in st['dsrc'][m] if restart or x.split('.')[0] not in had}
        for path, (mod, name) in st['loaded'][m].items():
            if defined_in(mod, name, st['sources']) in unknown:
                self.adopt(m, path, mod, name)
            self.scaffold(m, path, mod, name)
        st['vals'][m] = json.loads(json.dumps(st['file'][m]))
        st['secvals'][m] = json.loads(json.dumps(st['sec'][m]))
        st['over'][m] = {}
        st['dfile'][m], st['dsec'][m] = [], []
        if not restart:
            # edited before anything of it was registered here, but maybe imported by another manager
            st['dsrc'][m] = [x for x in st['dsrc'][m] if x.split('.')[0] not in had]
        for mod, src in st['sources'].items():
            if mod not in st['dsrc'][m]:
                st['src'][m][mod] = json.loads(json.dumps(src))

    def adopt(self, m, path, mod, name):
        """which arguments a load added from stale bytecode is up to Python"""
        file = self.st['file'][m].setdefault(path, {})
        text = self.w.read(self.rel(m, path)) or ''
        for stmt in ast.parse(text).body:
            t = stmt.targets[0] if isinstance(stmt, ast.Assign) else getattr(stmt, 'target', None)
            if isinstance(t, ast.Name) and t.id not in file and isinstance(t.id, str) and len(t.id) <= 2 and t.id != 's':
                file[t.id] = ['lit', ast.literal_eval(stmt.value)]

    def rel(self, m, path):
        return f"{m}/defaults/{path.replace('.', '/')}.py"

    def expected(self, m, path):
        """(site, args), or None if it is not determined"""
        st = self.st
        mod, name = st['loaded'][m][path]
        dmod = defined_in(mod, name, st['sources'])
        if path in st['dfile'][m] or dmod in st['dsrc'][m]:
            return None
        if any(path.startswith(s + '.') for s in st['dsec'][m]):
            return None
        it = self.item(mod, name, st['src'][m])
        src = st['src'][m].get(dmod)
        args = {}
        vals = st['vals'][m][path]
        names = [a['n'] for a in it['args']] + (['name'] if it['k'] == 'd' else [])
        for n in names:
            kind, v = vals[n]
            if kind == 'const':
                # a constant of the item's own module when the file was edited
                if v in st['dsrc'][m] or v not in [defined_in(*x, st['sources']) for x in st['loaded'][m].values()]:
                    return None
                v = st['src'][m][v]['const']
            args[n] = v
        for layer in st['over'][m].get(path, ()):
            args.update({k: v for k, v in layer.items() if k in args})
        parts = path.split('.')
        for i in range(1, len(parts)):
            for k, v in st['secvals'][m].get('.'.join(parts[:i]), {}).items():
                if k in args:
                    args[k] = v
        if it['k'] != 'd':
            args['_v'] = src['tag']
        return f'{dmod}.{name}', args

    def check(self, what, only=None):
        w, st = self.w, self.st
        from pyfileconf import Selector
        s = Selector()
        seen = []
        for m in self.case['mgrs']:
            if m not in self.pms:
                continue
            for path in sorted(st['loaded'][m]):
                if only is not None and [m, path] != only:
                    continue
                want = self.expected(m, path)
                if want is None:
                    w.count('check:undetermined')
                    continue
                for how in ('run', 'get'):
                    o = w.call(self.see, m, path, how)
                    if not o.ok:
                        raise Violation('unexpected-exception:' + where(o.exc), f'{what}: {how} {m}.{path}: {o!r}')
                    site, args = o.value
                    if site != want[0]:
                        raise Violation('stale-item', f'{what}: {how} {m}.{path} executed {site}, not {want[0]}')
                    if args.get('_v') != want[1].get('_v'):
                        raise Violation('stale-source', f'{what}: {how} {m}.{path} executed {args.get("_v")}, '
                                                        f'not {want[1].get("_v")}')
                    if norm(args) != norm(want[1]):
                        raise Violation('stale-values', f'{what}: {how} {m}.{path} gave {args}, not {want[1]}\n'
                                        + short(w.read(self.rel(m, path)) or '', 500))
                w.count('check:item')
                seen.append((m, path, repr(want)))
            if only is None:
                gone = [p for p in st.get('ever', {}).get(m, ()) if p not in st['loaded'][m]]
                for path in gone:
                    o = w.call(self.pms[m].run, path)
                    if o.ok or f'{m}.{path}' in s:
                        raise Violation('stale-entry', f'{what}: {m}.{path} is not in the dictionary file any more: {o!r}')
                    w.count('check:gone')
        w.note_state(seen)

    def see(self, m, path, how):
        pm = self.pms[m]
        if how == 'run':
            return P.strip(pm.run(path))
        obj = pm.get(path)
        return P.strip(obj())

    # ---- operations
    def start(self):
        w, case, st = self.w, self.case, self.st
        for m in case['mgrs']:
            # the specific class is the user's, who imports it
            pr = {'name': m, 'folder': m, 'spec': []}
            from pyfileconf import PipelineManager
            spec = []
            if st['specs'][m] is not None:
                import umd
                spec = [{'name': 'ex', 'class': umd.D0}]
            self.pms[m] = w.must(f'constructing {m}', PipelineManager, w.path(m), name=m,
                                 specific_class_config_dicts=spec)
            w.must(f'loading {m}', self.pms[m].load)
            self.loaded(m, restart=m in st['loaded'])
        self.note_ever()
        # what is first imported in this process may be from stale bytecode, in whatever way it is imported. All of it is
        # imported now
        for m in case['mgrs']:
            for path in st['loaded'][m]:
                w.call(self.pms[m].run, path)
        self.check('after start')

    def note_ever(self):
        ever = self.st.setdefault('ever', {})
        for m, d in self.st['loaded'].items():
            ever[m] = sorted(set(ever.get(m, ())) | set(d))

    def sync(self, op, m, path=None):
        w, st = self.w, self.st
        how = op['sync'] if 'sync' in op else op['op']
        if how is None:
            return
        if how == 'reload':
            w.must(f'reload {m}', self.pms[m].reload)
            self.loaded(m)
            self.note_ever()
        else:
            w.must(f'{how} {m}.{path}', getattr(self.pms[m], how), path)
            st['vals'][m][path] = {**self.defaults(*st['loaded'][m][path]), **st['file'][m][path]}
            if how == 'reset':
                st['over'][m].pop(path, None)
            elif path in st['over'][m]:
                st['over'][m][path][0] = {}
            if path in st['dfile'][m]:
                st['dfile'][m].remove(path)
        w.count('nontrivial')

    def step(self, op):
        w, st = self.w, self.st
        k = op['op']
        if k == 'start':
            self.start()
            return
        if not self.pms:
            return
        m = op['m']
        rng = random.Random(op['r'])
        paths = sorted(st['loaded'][m])
        path = rng.choice(paths) if paths else None
        if k in ('run', 'get', 'update', 'lasting', 'product', 'view', 'edit', 'refresh', 'reset') and path is None:
            return
        getattr(self, 'do_' + k)(op, m, path, rng)
        self.check(f'after {k}')

    def names(self, m, path):
        mod, name = self.st['loaded'][m][path]
        return [a['n'] for a in self.item(mod, name, self.st['sources'])['args']]

    def do_refresh(self, op, m, path, rng):
        self.sync(op, m, path)
    do_reset = do_reload = do_refresh

    def do_run(self, op, m, path, rng):
        self.w.call(self.pms[m].run, path)

    def do_get(self, op, m, path, rng):
        self.w.call(self.pms[m].get, path)

    def do_view(self, op, m, path, rng):
        from pyfileconf import Selector
        v = Selector()
        for p in f'{m}.{path}'.split('.'):
            v = getattr(v, p)
        self.w.call(lambda: v.item)

    def do_sections(self, op, m, path, rng):
        if path:
            self.w.call(self.pms[m].run, path.split('.')[0])

    def do_import(self, op, m, path, rng):
        # somebody else imports modules of the items
        pass

    def do_update(self, op, m, path, rng, lasting=False):
        names = self.own(m, path)
        if not names:
            return
        arg, v = rng.choice(names), rng.randrange(1000)
        if lasting:
            self.w.must('update', self.pms[m].update, {arg: v}, path)
        else:
            from pyfileconf import Selector
            view = Selector()
            for p in f'{m}.{path}'.split('.'):
                view = getattr(view, p)
            self.w.must('update', lambda: setattr(view, arg, v))
        self.st['over'][m].setdefault(path, [{}, {}])[1][arg] = v

    def own(self, m, path):
        """arguments which no section file sets"""
        sections = {k for d in (self.st['sec'][m], self.st['secvals'][m]) for s, values in d.items()
                    if path.startswith(s + '.') for k in values}
        return [n for n in self.names(m, path) if n in self.st['vals'][m][path] and n not in sections]

    def do_lasting(self, op, m, path, rng):
        self.do_update(op, m, path, rng, True)

    def do_product(self, op, m, path, rng):
        names = self.own(m, path)
        if names:
            arg = rng.choice(names)
            self.w.call(self.pms[m].run_product, path, [{'section_path_str': path, arg: 1000 + i} for i in range(2)])
            self.sync({'op': 'reset'}, m, path)

    def do_edit(self, op, m, path, rng):
        w, st, how = self.w, self.st, op['how']
        names = [n for n in self.names(m, path) if n in st['file'][m][path] or n in st['vals'][m][path]]
        if not names:
            return
        arg, v = rng.choice(names), rng.randrange(100, 1000)
        text = w.read(self.rel(m, path))
        if text is None:
            raise Violation('no-config-file', self.rel(m, path))
        mod, name = st['loaded'][m][path]
        dmod = defined_in(mod, name, st['sources'])
        new = ['lit', v]
        if how == 'drop':
            # no longer mentioned, so the default of the function is used
            text = P.drop_line(text, arg)
            new = None
        elif how == 'calc':
            text = P.set_line(text, arg, f'[{v} for _ in range(1)][0]')
        elif how == 'def':
            text = P.set_line(text, arg, 'helper()')
            text = cut(text, 'helper')
            text = insert(text, f'def helper():\n    return {v}\n')
            # what the helper gave before is as well
            for n, old in list(st['file'][m][path].items()):
                if old[0] == 'lit' and n != arg and re.search(rf'^{n}\b[^=\n]*= *helper\(\)', text, re.M):
                    text = P.set_line(text, n, v)
                    st['file'][m][path][n] = ['lit', v]
        elif how in ('import', 'importfirst'):
            # of its own module, or that of another item
            dmod = rng.choice(sorted({defined_in(*x, st['sources']) for x in st['loaded'][m].values()} - {'umd'}))
            if f'from {dmod} import CONST' not in text:
                line = f'from {dmod} import CONST as cst_{dmod.replace(".", "_")}\n'
                text = line + text if how == 'importfirst' and not text.startswith('"""') else insert(text, line)
            text = P.set_line(text, arg, f'cst_{dmod.replace(".", "_")}')
            new = ['const', dmod]
        elif how == 'rewrite':
            # all of it is new
            text = ''
            if mod == 'umd':
                text = f'name = {path.split(".")[-1]!r}\n'
            for n in sorted({*st['file'][m][path], arg}):
                if n != 'name':
                    text += f'{n} = {v}\n'
                    st['file'][m][path][n] = ['lit', v]
        else:
            text = P.set_line(text, arg, v)
        self.put(self.rel(m, path), text, op.get('mtime'))
        if new is None:
            st['file'][m][path].pop(arg, None)
        else:
            st['file'][m][path][arg] = new
        if path not in st['dfile'][m]:
            st['dfile'][m].append(path)
        self.sync(op, m, path)

    def do_source(self, op, m, path, rng):
        w, st, how, mod = self.w, self.st, op['how'], op['mod']
        if mod not in st['sources']:
            return
        src = st['sources'][mod]
        if how == 'const':
            src['const'] = rng.randrange(1000, 10000)
        else:
            src['tag'] = f'v{rng.randrange(1000, 10000)}'
        it = rng.choice(src['items'])
        if how == 'add':
            free = [n for n in ('a', 'b', 'c', 'x', 'y', 'z') if n not in [a['n'] for a in it['args']]]
            if free:
                it['args'].append({'n': rng.choice(free), 'd': str(rng.randrange(100, 1000)), 't': ''})
        elif how == 'remove' and len(it['args']) > 1:
            it['args'].pop(rng.randrange(len(it['args'])))
        elif how == 'default':
            for a in it['args']:
                if a['d'] is not None:
                    a['d'] = str(rng.randrange(100, 1000))
        self.put(f"src/{mod.replace('.', '/')}.py", source_text(mod, src), op.get('mtime'))
        for m2 in self.case['mgrs']:
            if mod not in st['dsrc'][m2]:
                st['dsrc'][m2].append(mod)
        self.sync(op, m)

    def do_dict(self, op, m, path, rng):
        w, st, how = self.w, self.st, op['how']
        entries = json.loads(json.dumps(st['entries'][m]))
        names = sorted(entries)
        if how == 'add':
            mod = rng.choice(sorted(st['sources']))
            name = rng.choice([it['n'] for it in st['sources'][mod]['items']])
            if name not in entries:
                entries[name] = [mod, []]
            sec = rng.choice(SECS)
            if sec not in entries[name][1]:
                entries[name][1].append(sec)
        elif not names:
            return
        elif how == 'remove':
            name = rng.choice(names)
            entries[name][1].pop(rng.randrange(len(entries[name][1])))
            if not entries[name][1]:
                del entries[name]
        elif how == 'move':
            e = entries[rng.choice(names)]
            sec = rng.choice(SECS)
            if sec not in e[1]:
                e[1][rng.randrange(len(e[1]))] = sec
        elif how == 'rebind':
            name = rng.choice(names)
            mods = [x for x, src in st['sources'].items() if any(it['n'] == name for it in src['items'])]
            if name in ('f1', 'f3', 'K0'):
                mods.append('pk')
            if name in ('f0', 'f1', 'K0'):
                mods.append('rex')
            entries[name][0] = rng.choice(mods)
        elif how == 'new':
            # a new module, and what it defines in place of what there is
            mod = rng.choice(sorted(NEWMODS))
            if mod not in st['sources']:
                st['sources'][mod] = gen_source(rng, NEWMODS[mod])
                self.put(f"src/{mod.replace('.', '/')}.py", source_text(mod, st['sources'][mod]), op.get('mtime'))
            name = rng.choice(NEWMODS[mod])
            entries[name] = [mod, entries.get(name, [mod, ['s0.t0']])[1]]
        entries = ok_entries(entries)
        if not entries:
            return
        st['entries'][m] = entries
        self.put_dicts(m, op.get('mtime'))
        self.sync(op, m)

    def do_spec(self, op, m, path, rng):
        st = self.st
        if st['specs'][m] is None:
            return
        names = set(st['specs'][m])
        names = names | {rng.choice(['d0', 'd1', 'd10', 'd2'])} if op['how'] == 'add' else names - {min(names, default='')}
        st['specs'][m] = sorted(names)
        self.put_dicts(m, op.get('mtime'))
        self.sync(op, m)

    def do_section(self, op, m, path, rng):
        st = self.st
        secs = sorted({'.'.join(p.split('.')[:i]) for p in st['loaded'][m] for i in range(1, p.count('.') + 1)})
        if not secs:
            return
        sec = rng.choice(secs)
        values = {rng.choice(['a', 'b', 'x']): rng.randrange(100, 1000)}
        self.put(f"{m}/defaults/{sec.replace('.', '/')}/section.py",
                 ''.join(f'{k} = {v}\n' for k, v in values.items()), op.get('mtime'))
        st['sec'][m][sec] = values
        if sec not in st['dsec'][m]:
            st['dsec'][m].append(sec)
        self.sync(op, m)


def norm(args):
    return {k: json.dumps(v, default=repr) for k, v in args.items()}


def insert(text, new):
    """after the first statement, which may be a docstring, and the imports"""
    tree = ast.parse(text)
    line = 0
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom)) or isinstance(st, ast.Expr) and st is tree.body[0]:
            line = st.end_lineno
        else:
            break
    lines = text.splitlines(keepends=True)
    return ''.join(lines[:line]) + new + ''.join(lines[line:])


def cut(text, name):
    """without the function"""
    lines = text.splitlines(keepends=True)
    for st in ast.parse(text).body:
        if isinstance(st, ast.FunctionDef) and st.name == name:
            lines[st.lineno - 1:st.end_lineno] = []
            break
    return ''.join(lines)


def run(w):
    sys.dont_write_bytecode = False
    s = Sim(w)
    st = w.state
    if st['incarnation'] == 0:
        s.setup()
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(0.3)
        w.log(st['pc'], op)
        w.count('op:' + op['op'])
        st['pc'] += 1
        if op['op'] == 'restart':
            w.restart()
        s.step(op)
