"""C16: a load which fails leaves the managers as they were, and is made up for by the next one"""
import ast
import errno
import json
import os
import random
import re
import sys

from ..seams import CLOCK, DISK
from ..world import Violation, short, where
from . import proj as P

RUNS = {'quick': 700, 'thorough': 80000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is one or two projects in which dictionary files, section files, config files of items and the modules '
        'of the functions and classes are broken (syntax errors, exceptions of many kinds, missing imports and names, on '
        'top or at the end), edited and repaired again, with loads and reloads of both managers in between which fail '
        'because of that, because reading a file fails, or because the user interrupts them at any I/O step, and with runs, '
        'updates, refreshes and restarts; non-trivial: a load failed, or an item failed, and a later load succeeded')
STATES = 'hash of what every item runs with, or fails with, after each operation'
ASSUMPTIONS = ['whether an error in a section file, config file or module fails the load or the use of the items it '
               'concerns is up to the implementation']

MODS = {'um0': ['f0', 'f1', 'K0'], 'um1': ['f2', 'K1'], 'pk.mod': ['f3', 'f4', 'K2'], 'pk.sub.deep': ['f5']}
VIA = {'rex': ('um0', ['f0', 'K0']), 'pk': ('pk.mod', ['f3', 'K2'])}
HOME = {n: m for m, ns in MODS.items() for n in ns}
SECS = ['s0', 's1', 's0.t0', 's1.t0.u0', 's10']
KINDS = ['syntax', 'syntax', 'ValueError', 'KeyError', 'AttributeError', 'ImportError', 'OSError',
         'KeyboardInterrupt', 'SystemExit', 'TypeError', 'FileNotFoundError', 'RecursionError', 'import', 'from', 'name',
         'NotImplementedError', 'AssertionError', 'RuntimeError', 'IndexError', 'UnicodeDecodeError', 'attribute', 'indent']


def gen(rng, tier):
    mgrs = ['pm'] if rng.random() < 0.5 else ['pm', 'pm2']
    sources = {m: {'tag': 'v0', 'items': [{'k': 'f' if n[0] == 'f' else 'c', 'n': n, 'args': P.gen_args(
        rng, rng.choice([['a', 'b', 'c'], ['x', 'a', 'y'], ['b', 'x', 'c']]), required=n[0] == 'f')} for n in ns]}
        for m, ns in MODS.items()}
    case = {'mgrs': mgrs, 'sources': sources, 'entries': {}, 'spec': {},
            'dargs': P.gen_args(rng, ['x', 'y'], n=2, required=False)}
    for m in mgrs:
        # some of every top-level package, so that all of them are registered
        e = {}
        for names in (['f0', 'f1', 'K0'], ['f2', 'K1'], ['f3', 'f4', 'K2', 'f5']):
            for n in rng.sample(names, rng.randint(1, 2)):
                e[n] = [rng.choice([HOME[n]] + [v for v, (_, ns) in VIA.items() if n in ns]),
                        sorted(rng.sample(['s0.t0', 's1.t0.u0', 's10'], rng.randint(1, 2)))]
        case['entries'][m] = e
        case['spec'][m] = sorted(rng.sample(['d0', 'd1', 'd10'], rng.randint(1, 2))) if rng.random() < 0.4 else None
    ops = []
    r = lambda: rng.randrange(1 << 20)

    def brk(m, early=False):
        what = rng.choices(['dict', 'spec', 'sec', 'file', 'src', 'hlp'], [2, 1, 3, 3, 3, 1])[0]
        return {'op': 'break', 'what': what, 'm': m, 'kind': rng.choice(KINDS), 'top': rng.random() < 0.4, 'r': r()}

    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        ops.append(brk(rng.choice(mgrs)))
    if rng.random() < 0.5:
        # section files which the user has written before
        for _ in range(rng.randint(1, 3)):
            ops.insert(0, {'op': 'section', 'm': rng.choice(mgrs), 'r': r()})
        ops.append(brk(rng.choice(mgrs)))
        ops.append(attempt(rng, ops[-1]['m']))
        ops.append({'op': 'helper', 'm': ops[-1]['m'], 'r': r()})
        ops.append({'op': 'repair', 'm': ops[-1]['m'], 'r': r(), 'all': True})
    for m in mgrs:
        if rng.random() < 0.8:
            ops.append(attempt(rng, m))
    for _ in range(rng.randint(3, 22 if tier == 'thorough' else 14)):
        m = rng.choice(mgrs)
        k = rng.random()
        if k < 0.22:
            ops.append(brk(m))
        elif k < 0.38:
            ops.append({'op': 'repair', 'm': m, 'r': r(), 'all': rng.random() < 0.6})
        elif k < 0.52:
            ops.append({'op': rng.choice(['value', 'value', 'section', 'section', 'source', 'source', 'dict', 'dict',
                                           'spec', 'helper']),
                        'm': m, 'r': r()})
        elif k < 0.62:
            ops.append({'op': rng.choice(['update', 'update', 'refresh', 'reset', 'hook']), 'm': m, 'r': r()})
        elif k < 0.65:
            ops.append({'op': 'restart'})
            for m2 in mgrs:
                ops.append(attempt(rng, m2))
        else:
            ops.append(attempt(rng, m))
    ops.append({'op': 'repair', 'm': mgrs[0], 'r': 0, 'all': True})
    for m in mgrs:
        ops.append({'op': 'load', 'm': m, 'how': 'reload', 'at': None, 'r': 0})
    case['ops'] = ops
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


def attempt(rng, m):
    at, do = None, None
    if rng.random() < 0.3:
        do = rng.choice(['kbi', 'kbi', 'EIO', 'EACCES', 'EMFILE'])
        at = rng.choice([rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 200)])
    return {'op': 'load', 'm': m, 'how': rng.choice(['load', 'reload', 'reload']), 'at': at, 'do': do,
            'r': rng.randrange(1 << 20)}


def broken_line(kind, n):
    b = f'broken_{n}'
    if kind == 'syntax':
        return f'{b} = def (\n'
    if kind == 'indent':
        return f'if {b}:\npass; {b}\n'
    if kind == 'import':
        return f'import {b}\n'
    if kind == 'from':
        return f'from simrt import {b}\n'
    if kind == 'name':
        return f'{b}\n'
    if kind == 'attribute':
        return f'"".{b}\n'
    if kind == 'UnicodeDecodeError':
        return f'raise UnicodeDecodeError("utf8", b"", 0, 1, "{b}")\n'
    return f'raise {kind}("{b}")\n'


def syntax(kind):
    return kind in ('syntax', 'indent')


EXC = {'syntax': SyntaxError, 'indent': IndentationError, 'import': ModuleNotFoundError, 'from': ImportError,
       'name': NameError, 'attribute': AttributeError}


class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.st = w.state
        self.pms = {}
        self.taken = set()      # managers which were tried to load in this process

    # ---- state
    def setup(self):
        w, case, st = self.w, self.case, self.st
        st['pc'] = 0
        st['n'] = 0
        st['sources'] = json.loads(json.dumps(case['sources']))
        st['entries'] = json.loads(json.dumps(case['entries']))
        st['specs'] = json.loads(json.dumps(case['spec']))
        st['file'] = {m: {} for m in case['mgrs']}      # on disk: path -> {arg: value}
        st['sec'] = {m: {} for m in case['mgrs']}       # on disk
        st['hlp'] = {}                                  # what section files import
        st['broken'] = {}                               # thing -> [n, kind]
        st['live'] = {}         # manager -> what its last successful load saw
        for mod, src in st['sources'].items():
            self.put_source(mod)
        w.write('src/pk/__init__.py', 'from pk.mod import f3, K2\n')
        w.write('src/pk/sub/__init__.py', '')
        w.write('src/rex.py', 'from um0 import f0, K0\n')
        w.write('src/umd.py', P.module_src('umd', [{'k': 'd', 'n': 'D0', 'args': case['dargs']}]))
        for m in case['mgrs']:
            self.put_dict(m)
            self.put_spec(m)
            self.put_helper(m, 50)

    def put_helper(self, m, v):
        self.st['hlp'][m] = v
        self.w.write(f'src/hlp_{m}.py', f'V = {v}\n')
        self.st['broken'].pop('hlp:' + m, None)

    def resolved(self, m):
        return {sec: {k: self.st['hlp'][m] if v == 'hlp' else v for k, v in values.items()}
                for sec, values in self.st['sec'][m].items()}

    def put_source(self, mod):
        src = self.st['sources'][mod]
        self.w.write(f"src/{mod.replace('.', '/')}.py", P.module_src(mod, src['items'], src['tag']))
        self.st['broken'].pop('src:' + mod, None)

    def put_dict(self, m):
        tree, imports = {}, []
        for name, (mod, secs) in self.st['entries'][m].items():
            imports.append(f'from {mod} import {name}\n')
            for sec in secs:
                cur = tree
                parts = sec.split('.')
                for p in parts[:-1]:
                    cur = cur.setdefault(p, {})
                cur.setdefault(parts[-1], []).append(name)
        self.w.write(f'{m}/pipeline_dict.py', ''.join(imports) + f'\npipeline_dict = {P.tree_src(tree, False)}\n')
        self.st['broken'].pop('dict:' + m, None)

    def put_spec(self, m):
        if self.st['specs'][m] is not None:
            self.w.write(f'{m}/ex_dict.py', f'class_dict = {{"s0": {self.st["specs"][m]!r}}}\n')
            self.st['broken'].pop('spec:' + m, None)

    def put_sec(self, m, sec):
        values = self.st['sec'][m].get(sec, {})
        text = ''.join(f'{k} = hlp_{m}.V\n' if v == 'hlp' else f'{k} = {v}\n' for k, v in values.items())
        self.w.write(self.rel('sec', f'{m}:{sec}'), (f'import hlp_{m}\n' if 'hlp' in values.values() else '') + text)
        self.st['broken'].pop(f'sec:{m}:{sec}', None)

    def rel(self, what, x):
        if what == 'src':
            return f"src/{x.replace('.', '/')}.py"
        if what == 'hlp':
            return f'src/hlp_{x}.py'
        m, _, rest = x.partition(':')
        if what == 'dict':
            return f'{m}/pipeline_dict.py'
        if what == 'spec':
            return f'{m}/ex_dict.py'
        rest = rest.replace('.', '/')
        return f'{m}/defaults/{rest}/section.py' if what == 'sec' else f'{m}/defaults/{rest}.py'

    def paths(self, m):
        """{path: [module, name]} of the dictionary files on disk"""
        out = {}
        for name, (mod, secs) in self.st['entries'][m].items():
            for sec in secs:
                out[f'{sec}.{name}'] = [mod, name]
        for n in self.st['specs'][m] or ():
            out[f'ex.s0.{n}'] = ['umd', 'D0']
        return out

    def item(self, mod, name):
        if mod == 'umd':
            return {'k': 'd', 'n': 'D0', 'args': self.case['dargs']}
        return next(it for it in self.st['sources'][HOME[name]]['items'] if it['n'] == name)

    def errors(self, m, path, mod, name):
        """the broken things which the item depends on"""
        out = []
        for thing, b in self.st['broken'].items():
            what, _, x = thing.partition(':')
            if what == 'sec' and x.startswith(m + ':') and path.startswith(x[len(m) + 1:] + '.'):
                out.append(b)
            elif what == 'file' and x == f'{m}:{path}':
                out.append(b)
            elif what == 'src' and uses(mod, x):
                out.append(b)
            elif what == 'hlp' and x == m and any(path.startswith(sec + '.') and 'hlp' in values.values()
                                                  for sec, values in self.st['sec'][m].items()):
                out.append(b)
        return out

    # ---- loads
    def adopt(self, m):
        """takes over what loads added to the config files"""
        for path, (mod, name) in self.paths(m).items():
            text = self.w.read(self.rel('file', f'{m}:{path}'))
            if text is None:
                continue
            file = self.st['file'][m].setdefault(path, {})
            text = ''.join(line for line in text.splitlines(keepends=True) if 'broken_' not in line)
            it = self.item(mod, name)
            names = [a['n'] for a in it['args']] + (['name'] if it['k'] == 'd' else [])
            for stmt in ast.parse(text).body:
                t = stmt.targets[0] if isinstance(stmt, ast.Assign) else getattr(stmt, 'target', None)
                if isinstance(t, ast.Name) and t.id not in file and t.id in names:
                    file[t.id] = ast.literal_eval(stmt.value)

    def do_load(self, op):
        w, st, m = self.w, self.st, op['m']
        how = op['how']
        live = st['live'].get(m)
        if m not in self.pms:
            from pyfileconf import PipelineManager
            spec = []
            if st['specs'][m] is not None:
                import umd
                spec = [{'name': 'ex', 'class': umd.D0}]
            self.pms[m] = w.must(f'constructing {m}', PipelineManager, w.path(m), name=m,
                                 specific_class_config_dicts=spec)
        if live is None:
            how = 'load' if m not in self.taken else how
        elif live['dsrc'] or live['dhlp'] or any(b.startswith('src:') for b in st['broken']):
            how = 'reload'
        self.taken.add(m)
        fired = []
        if op['at'] is not None:
            todo = [op['at']]

            def on_step(n):
                kind, rel, write = DISK.trace[-1]
                todo[0] -= 1
                if todo[0] > 0 or fired:
                    return
                if op['do'] != 'kbi' and (write or kind not in ('open_r', 'read_src', 'scandir') or not rel.endswith('.py') and kind != 'scandir'):
                    return
                exc = KeyboardInterrupt('at ' + rel) if op['do'] == 'kbi' else OSError(
                    getattr(errno, op['do']), os.strerror(getattr(errno, op['do'])), w.path(rel))
                fired.append(exc)
                w.count('fault:' + op['do'] + ':' + kind)
                w.log('  fault', op['do'], kind, rel)
                raise exc
            DISK.begin(None)
            DISK.on_step = on_step
        o = w.call(getattr(self.pms[m], how))
        DISK.on_step = None
        known = [b for b in st['broken'].values()]
        must = [st['broken'][t] for t in ('dict:' + m, 'spec:' + m) if t in st['broken']]
        paths = self.paths(m)
        hits = must + [b for path, (mod, name) in paths.items() for b in self.errors(m, path, mod, name)]
        w.log('  ', how, repr(o), 'broken', sorted(st['broken']))
        self.adopt(m)
        if not o.ok:
            if not any(o.exc is e for e in fired) and not any(is_error(o.exc, b) for b in hits):
                # also when it was caused by the interrupt
                raise Violation('wrong-error:' + where(o.exc), f'{how} {m} with {hits}, {fired}: {o!r}')
            w.count('check:failed')
            st['failed'] = True
            if live is not None:
                live['fails'] = live['fails'] + 1
                # what failed before in use is open
                for path in live['bad']:
                    live['open'].append(path)
            return
        if must:
            raise Violation('swallowed', f'{how} {m} succeeded with {must}')
        if st.get('failed'):
            w.count('nontrivial')
        vals, bad = {}, {}
        for path, (mod, name) in paths.items():
            errs = self.errors(m, path, mod, name)
            it = self.item(mod, name)
            if errs:
                bad[path] = errs
                st['failed'] = True
            else:
                file = st['file'][m].get(path, {})
                for a in it['args']:
                    if a['n'] not in file:
                        raise Violation('not-added', f'{how} {m}: {path} has no {a["n"]}:\n'
                                        + short(w.read(self.rel('file', f'{m}:{path}')) or 'no file', 500))
                names = [a['n'] for a in it['args']] + (['name'] if it['k'] == 'd' else [])
                vals[path] = {'site': f'{HOME.get(name, mod)}.{name}', 'args': {n: file[n] for n in names},
                              'over': {}, 'k': it['k'], 'mod': mod,
                              'tag': None if it['k'] == 'd' else st['sources'][HOME[name]]['tag']}
        st['live'][m] = {'vals': vals, 'bad': bad, 'open': [], 'sec': self.resolved(m), 'dsrc': [], 'dhlp': [],
                         'dfile': [], 'dsec': [], 'fails': 0}
        ever = set(st.setdefault('ever', {}).get(m, ())) | set(paths)
        st['ever'][m] = sorted(ever)

    # ---- what must be seen
    def secs_of(self, values, path):
        out = {}
        parts = path.split('.')
        for i in range(1, len(parts)):
            out.update(values.get('.'.join(parts[:i]), {}))
        return out

    def check(self, what):
        w, st = self.w, self.st
        from pyfileconf import Selector
        seen = []
        for m in self.case['mgrs']:
            live = st['live'].get(m)
            every = set(st.get('ever', {}).get(m, ())) | set(self.paths(m))
            if live is None or m not in self.pms:
                continue
            for path in sorted(every):
                if path in live['open']:
                    continue
                if path in live['bad']:
                    o = w.call(self.pms[m].run, path)
                    if o.ok:
                        raise Violation('error-lost', f'{what}: {m}.{path} ran with {o!r} in spite of {live["bad"][path]}')
                    if not any(is_error(o.exc, b) for b in live['bad'][path]):
                        raise Violation('wrong-item-error:' + where(o.exc),
                                        f'{what}: {m}.{path}: {o!r}, not {live["bad"][path]}')
                    w.count('check:item-error')
                    seen.append((m, path, 'error'))
                    continue
                if path not in live['vals']:
                    o = w.call(self.pms[m].run, path)
                    if o.ok or f'{m}.{path}' in Selector():
                        raise Violation('entry-not-loaded', f'{what}: {m}.{path}: {o!r}')
                    w.count('check:no-entry')
                    continue
                v = live['vals'][path]
                if f'{m}.{path}' not in Selector():
                    raise Violation('not-selectable', f'{what}: {m}.{path}')
                if any(uses(v['mod'], x) for x in live['dsrc']):
                    # modules are only imported when they are needed, maybe only now
                    w.count('check:undetermined')
                    continue
                args = dict(v['args'], **v['over'])
                args.update({k: x for k, x in self.secs_of(live['sec'], path).items() if k in args})
                if v['tag'] is not None:
                    args['_v'] = v['tag']
                for how in ('run', 'get'):
                    o = w.call(self.see, m, path, how)
                    if not o.ok:
                        raise Violation('item-lost:' + where(o.exc), f'{what}: {how} {m}.{path}: {o!r}')
                    if o.value[0] != v['site'] or o.value[1].get('_v') != v['tag']:
                        raise Violation('wrong-source', f'{what}: {how} {m}.{path} executed {o.value}, not {v["site"]} '
                                                        f'of {v["tag"]}')
                    if norm(o.value[1]) != norm(args):
                        raise Violation('wrong-values', f'{what}: {how} {m}.{path} gave {o.value[1]}, not {args}')
                w.count('check:item' + ('-after-failure' if live['fails'] else ''))
                seen.append((m, path, repr(args)))
        w.note_state(seen)

    def see(self, m, path, how):
        pm = self.pms[m]
        return P.strip(pm.run(path)) if how == 'run' else P.strip(pm.get(path)())

    # ---- operations
    def all_loaded(self):
        return all(m in self.st['live'] for m in self.case['mgrs'])

    def none_tried(self):
        return not self.taken

    def do_break(self, op):
        w, st, m, what = self.w, self.st, op['m'], op['what']
        rng = random.Random(op['r'])
        kind = op['kind']
        if what in ('dict', 'spec'):
            x = m
            if what == 'spec' and st['specs'][m] is None:
                return
            kind = rng.choice(['syntax', 'indent'])
        elif what == 'src':
            if not (self.all_loaded() or self.none_tried()):
                return
            x = rng.choice(sorted(MODS))
        elif what == 'hlp':
            x = m
        elif what == 'sec':
            secs = {'.'.join(p.split('.')[:i]) for p in self.paths(m) for i in range(1, p.count('.') + 1)}
            secs = sorted(s for s in secs if w.read(self.rel('sec', f'{m}:{s}')) is not None)
            if not secs:
                return
            x = f'{m}:{rng.choice(secs)}'
        else:
            files = sorted(p for p in self.paths(m) if w.read(self.rel('file', f'{m}:{p}')) is not None)
            if not files:
                return
            x = f'{m}:{rng.choice(files)}'
        thing = f'{what}:{x}'
        if thing in st['broken']:
            return
        st['n'] += 1
        rel = self.rel(what, x)
        text = w.read(rel)
        if text and not text.endswith('\n'):
            text += '\n'
        line = broken_line(kind, st['n'])
        w.write(rel, line + text if op['top'] else text + line)
        st['broken'][thing] = [st['n'], kind]
        w.count(f'fault:broken-{what}')
        w.log('  broke', thing, kind)
        self.dirty(what, x)

    def dirty(self, what, x):
        st = self.st
        for m, live in st['live'].items():
            if what == 'src':
                live['dsrc'].append(x)
            elif what == 'hlp' and x == m:
                live['dhlp'].append(x)
            elif x.split(':')[0] == m and what in ('file', 'sec'):
                live['d' + what].append(x.split(':')[1])
            # what failed and was repaired in part or in another way is open until the next load
            for path, errs in live['bad'].items():
                if path not in live['open']:
                    live['open'].append(path)

    def do_repair(self, op):
        st, w = self.st, self.w
        rng = random.Random(op['r'])
        things = sorted(st['broken'])
        if not things:
            return
        for thing in things if op['all'] else [rng.choice(things)]:
            n, kind = st['broken'].pop(thing)
            what, _, x = thing.partition(':')
            rel = self.rel(what, x)
            lines = w.read(rel).splitlines(keepends=True)
            # (the second line of what is broken by its indentation has the mark, too)
            keep = [line for line in lines if f'broken_{n}' not in line]
            if len(keep) == len(lines):
                raise Violation('user-code-lost', f'{thing} {kind}: {lines}')
            w.write(rel, ''.join(keep))
            w.log('  repaired', thing)
            self.dirty(what, x)

    def do_value(self, op):
        w, st, m = self.w, self.st, op['m']
        rng = random.Random(op['r'])
        files = sorted(p for p in self.paths(m) if w.read(self.rel('file', f'{m}:{p}')) is not None)
        if not files:
            return
        path = rng.choice(files)
        self.adopt(m)
        names = sorted(n for n in st['file'][m].get(path, {}) if n != 'name')
        if not names:
            return
        arg, v = rng.choice(names), rng.randrange(100, 1000)
        w.write(self.rel('file', f'{m}:{path}'), P.set_line(w.read(self.rel('file', f'{m}:{path}')), arg, v))
        st['file'][m][path][arg] = v
        self.dirty('file', f'{m}:{path}')

    def do_section(self, op):
        w, st, m = self.w, self.st, op['m']
        rng = random.Random(op['r'])
        secs = sorted({'.'.join(p.split('.')[:i]) for p in self.paths(m) for i in range(1, p.count('.') + 1)})
        if not secs:
            return
        sec = rng.choice(secs)
        st['sec'][m][sec] = {rng.choice(['a', 'b', 'x']): 'hlp' if rng.random() < 0.4 else rng.randrange(100, 1000)}
        self.put_sec(m, sec)
        self.dirty('sec', f'{m}:{sec}')

    def do_helper(self, op):
        self.put_helper(op['m'], random.Random(op['r']).randrange(50, 99))
        self.dirty('hlp', op['m'])

    def do_source(self, op):
        st = self.st
        if not (self.all_loaded() or self.none_tried()):
            return
        rng = random.Random(op['r'])
        mod = rng.choice(sorted(st['sources']))
        src = st['sources'][mod]
        st['n'] += 1
        src['tag'] = f'v{st["n"]}'
        it = rng.choice(src['items'])
        how = rng.choice(['tag', 'add', 'remove'])
        if how == 'add':
            free = [n for n in ('a', 'b', 'c', 'x', 'y', 'z') if n not in [a['n'] for a in it['args']]]
            if free:
                it['args'].append({'n': rng.choice(free), 'd': str(rng.randrange(100, 1000)), 't': ''})
        elif how == 'remove' and len(it['args']) > 1:
            it['args'].pop(rng.randrange(len(it['args'])))
        for m in self.case['mgrs']:
            self.adopt(m)
        self.put_source(mod)
        self.dirty('src', mod)

    def do_dict(self, op):
        st, m = self.st, op['m']
        rng = random.Random(op['r'])
        entries = st['entries'][m]
        how = rng.choice(['add', 'remove', 'move', 'rebind'])
        name = rng.choice(sorted(entries))
        if how == 'add':
            name = rng.choice(sorted(HOME))
            e = entries.setdefault(name, [HOME[name], []])
            sec = rng.choice(['s0.t0', 's1.t0.u0', 's10', 's0.t1'])
            if sec not in e[1]:
                e[1].append(sec)
        elif how == 'remove':
            top = {HOME[n].split('.')[0] for n in entries if n != name or len(entries[n][1]) > 1}
            if HOME[name].split('.')[0] in top:
                entries[name][1].pop()
                if not entries[name][1]:
                    del entries[name]
        elif how == 'move':
            sec = rng.choice(['s0.t0', 's1.t0.u0', 's10', 's0.t1'])
            if sec not in entries[name][1]:
                entries[name][1][0] = sec
        else:
            entries[name][0] = rng.choice([HOME[name]] + [v for v, (_, ns) in VIA.items() if name in ns])
        self.put_dict(m)

    def do_spec(self, op):
        st, m = self.st, op['m']
        if st['specs'][m] is None:
            return
        rng = random.Random(op['r'])
        names = set(st['specs'][m])
        names = names | {rng.choice(['d0', 'd1', 'd10', 'd2'])} if rng.random() < 0.6 else names - {min(names, default='')}
        st['specs'][m] = sorted(names)
        self.put_spec(m)

    def good(self, op):
        live = self.st['live'].get(op['m'])
        if live is None or op['m'] not in self.pms:
            return None, None
        paths = sorted(p for p in live['vals'] if p not in live['open'])
        return (live, random.Random(op['r']).choice(paths)) if paths else (live, None)

    def do_update(self, op):
        live, path = self.good(op)
        if path is None:
            return
        rng = random.Random(op['r'])
        v = live['vals'][path]
        own = sorted(set(v['args']) - set(self.secs_of(live['sec'], path)) - set(self.secs_of(self.st['sec'][op['m']], path))
                     - {'name'})
        if not own:
            return
        arg, x = rng.choice(own), rng.randrange(2000, 3000)
        self.w.must('update', self.pms[op['m']].update, {arg: x}, path)
        v['over'][arg] = x

    def do_refresh(self, op):
        """of an item whose file and sections are as they were loaded, or whose file is broken"""
        st, w, m = self.st, self.w, op['m']
        live, path = self.good(op)
        if path is None:
            return
        rng = random.Random(op['r'] + 1)
        broken = [p for p in live['vals'] if p not in live['open'] and f'file:{m}:{p}' in st['broken']]
        if broken and rng.random() < 0.7:
            path = rng.choice(sorted(broken))
        b = st['broken'].get(f'file:{m}:{path}')
        if b is None and path in live['dfile']:
            return
        secs = live['dsec']
        if any(path.startswith(s + '.') for s in secs):
            return
        o = w.call(getattr(self.pms[m], op['op']), path)
        if b is not None:
            if o.ok or not is_error(o.exc, b):
                raise Violation('refresh-of-broken', f'{op["op"]} {m}.{path} with {b}: {o!r}')
            w.count('check:refresh-failed')
            return
        if not o.ok:
            raise Violation('unexpected-exception:' + where(o.exc), f'{op["op"]} {m}.{path}: {o!r}')
        if op['op'] == 'reset':
            live['vals'][path]['over'] = {}
    do_reset = do_refresh

    def do_hook(self, op):
        """an item reloads the manager while it runs"""
        live, path = self.good(op)
        if path is None or live['vals'][path]['k'] == 'd':
            return
        w, m = self.w, op['m']
        site = live['vals'][path]['site']
        done = []

        def hook(where_, args):
            if where_ == site and not done:
                done.append(1)
                w.hook = None
                w.count('inside-run')
                self.do_load({'m': m, 'how': 'reload', 'at': None})
        w.hook = hook
        w.call(self.pms[m].run, path)
        w.hook = None


def uses(mod, x):
    return mod == x or VIA.get(mod, [None])[0] == x or x == 'pk.mod' and mod.split('.')[0] == 'pk'


def is_error(exc, b):
    n, kind = b
    import builtins
    t = EXC.get(kind) or getattr(builtins, kind)
    if not isinstance(exc, t):
        return False
    texts = [str(exc), str(getattr(exc, 'text', ''))]
    return any(re.search(rf'broken_{n}\b', x) for x in texts) or kind == 'indent'


def norm(args):
    return {k: json.dumps(v, default=repr) for k, v in args.items()}


def run(w):
    sys.dont_write_bytecode = True
    s = Sim(w)
    st = w.state
    if st['incarnation'] == 0:
        s.setup()
    st['live'] = {}
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(1.3)
        w.log(st['pc'], op)
        w.count('op:' + op['op'])
        st['pc'] += 1
        if op['op'] == 'restart':
            w.restart()
        getattr(s, 'do_' + op['op'])(op)
        s.check(f'after {op["op"]}')
