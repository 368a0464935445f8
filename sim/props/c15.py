"""C15: managers come and go without disturbing each other"""
import gc
import json
import os
import random
import traceback
import warnings

from ..seams import CLOCK, DISK
from ..world import Violation, UserError, short, where
from . import proj as P

RUNS = {'quick': 1100, 'thorough': 80000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is a history of constructing (also where it fails), loading (also where it fails), replacing, dropping, '
        'reloading, updating and forgetting managers, some with a folder inside that of another or with names which are '
        'prefixes, between operations or from inside of their user code while another manager runs or loads, with garbage '
        'collection at seeded I/O steps; all lookups are checked after each operation; non-trivial: a manager was '
        'replaced, dropped or failed')
STATES = 'hash of (owner, loaded, configuration) of every name after each operation'
ASSUMPTIONS = ['no two active managers have the same folder']

NAMES = ['pm', 'pm1', 'pmx', 'pm10']
FOLDERS = ['fa', 'fa2', 'fa/nested', 'fb', 'fa/nested/deep']
PATHS = ['s0.f0', 's0.f1', 's1.f1', 's1.f0', 's10.t0.f0', 's10.t1.f1', 'ex.s0.d0', 'ex.s0.d1']


def gen(rng, tier):
    folders = rng.sample(FOLDERS, rng.randint(2, 4))
    names = rng.sample(NAMES, rng.randint(2, 3))
    projects = {}
    for i, f in enumerate(folders):
        paths = sorted(rng.sample(PATHS, rng.randint(2, 6)))
        if not [p for p in paths if not p.startswith('ex.')]:
            paths.append('s0.f0')
        projects[f] = {'i': i, 'paths': paths, 'views': {}}
        for p in paths:
            if rng.random() < 0.3:
                # an argument is a view of an item of some manager, or an attribute of it
                # (without cycles)
                before = PATHS[:PATHS.index(p)]
                if before:
                    projects[f]['views'][p] = [rng.choice(['view', 'attr']), rng.choice(names), rng.choice(before)]
    case = {'projects': projects, 'names': names}
    ops = []
    n = rng.randint(4, 26 if tier == 'thorough' else 16)
    for name in names:
        if rng.random() < 0.7:
            ops.append({'op': 'make', 'name': name, 'folder': rng.choice(folders), 'r': rng.randrange(1 << 20)})
    while len(ops) < n:
        k = rng.random()
        op = {'op': 'make' if k < 0.2 else 'construct' if k < 0.28 else 'load' if k < 0.34 else 'reload' if k < 0.46
              else 'drop' if k < 0.51 else 'forget' if k < 0.56 else 'gc' if k < 0.6 else 'update' if k < 0.73
              else 'reset' if k < 0.78 else 'refresh' if k < 0.8 else 'old' if k < 0.9 else 'hold',
              'name': rng.choice(names), 'folder': rng.choice(folders), 'r': rng.randrange(1 << 20)}
        if op['op'] in ('make', 'construct', 'load', 'reload') and rng.random() < 0.3:
            op['fault'] = rng.choice(['exclusive', 'io', 'io', 'inway', 'syntax', 'missing', 'user', 'kbi'])
            op['pos'] = round(rng.random(), 3)
        if rng.random() < 0.35:
            op['gcat'] = sorted(rng.sample(range(1, 40), 3))
        if op['op'] not in ('hold', 'gc') and rng.random() < 0.12:
            op['inside'] = rng.choice(['run', 'run', 'file'])
            op['host'] = rng.choice(names)
        ops.append(op)
    case['ops'] = ops
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


class Manager:
    """what is known of a manager"""

    def __init__(self, name, folder):
        self.name = name
        self.folder = folder
        self.pm = None
        self.loaded = False
        self.vals = {}       # path -> {arg: value}
        self.linked = set()  # paths whose file has seen what it refers to


class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.owner = {}       # name -> Manager
        self.old = []         # replaced, dropped or not constructed, but still held
        self.selectors = []
        self.views = []
        self.inside = None

    # ---- files
    def write(self):
        w = self.w
        w.write('src/umd.py', P.module_src('umd', [{'k': 'd', 'n': 'D0', 'args': self.args(0, 'D0')}]))
        for f, pr in self.case['projects'].items():
            mod = f"um{pr['i']}"
            w.write(f'src/{mod}.py', P.module_src(mod, [
                {'k': 'f', 'n': n, 'args': self.args(pr['i'], n)} for n in ('f0', 'f1')]))
            self.write_dict(f)
            for p in pr['paths']:
                lines = ['import simrt\nfrom pyfileconf import Selector\n\ns = Selector()\n', f"simrt.cfg('{f}/{p}')\n"]
                if p.startswith('ex.'):
                    lines.append(f"name = {p.split('.')[-1]!r}\n")
                for a, v in self.file_values(f, p).items():
                    if a == 'name':
                        continue
                    ref = pr['views'].get(p)
                    if a == 'x' and ref:
                        v = f's.{ref[1]}.{ref[2]}'
                        if ref[0] == 'attr':
                            v += '.y' if ref[2].startswith('ex.') else ".keywords['y']"
                        lines.append(f'try:\n    x = {v}\nexcept Exception:\n    x = None\n')
                        continue
                    lines.append(f'{a} = {v}\n')
                w.write(f"{f}/defaults/{p.replace('.', '/')}.py", ''.join(lines))

    def write_dict(self, f, bad=None):
        w, pr = self.w, self.case['projects'][f]
        tree, ex = {}, []
        for p in pr['paths']:
            parts = p.split('.')
            if parts[0] == 'ex':
                ex.append(parts[-1])
                continue
            cur = tree
            for x in parts[:-2]:
                cur = cur.setdefault(x, {})
            cur.setdefault(parts[-2], []).append(parts[-1])
        text = f"from um{pr['i']} import f0, f1\n\npipeline_dict = {P.tree_src(tree, False)}\n"
        if bad == 'syntax':
            text += 'def (:\n'
        if bad == 'missing':
            text = text.replace(f"um{pr['i']}", 'um_missing')
        w.write(f'{f}/pipeline_dict.py', text)
        w.write(f'{f}/ex_dict.py', f'class_dict = {{"s0": {ex!r}}}\n')

    def args(self, i, n):
        return [{'n': 'x', 'd': str(i * 1000 + 10), 't': ''}, {'n': 'y', 'd': str(i * 1000 + 20), 't': ''}]

    def file_values(self, f, path):
        pr = self.case['projects'][f]
        k = pr['i'] * 1000 + PATHS.index(path) * 10
        out = {'x': k + 1, 'y': k + 2}
        if path.startswith('ex.'):
            out['name'] = path.split('.')[-1]
        return out

    def site(self, f, path):
        return 'umd.D0' if path.startswith('ex.') else f"um{self.case['projects'][f]['i']}.{path.split('.')[-1]}"

    # ---- the model
    def reset_vals(self, m, paths=None):
        for p in paths or self.case['projects'][m.folder]['paths']:
            m.vals[p] = self.file_values(m.folder, p)
            ref = self.case['projects'][m.folder]['views'].get(p)
            if ref:
                m.linked.discard(p)
                m.vals[p]['x'] = None

    def follow(self):
        """what depends on attributes of other items has their values. Those which could not be read stay out of it"""
        for _ in range(len(PATHS) * 3):
            changed = False
            for m in list(self.owner.values()):
                if not m.loaded:
                    continue
                for p, ref in self.case['projects'][m.folder]['views'].items():
                    if p not in m.linked:
                        continue
                    o = self.owner.get(ref[1])
                    if o is None or not o.loaded:
                        continue
                    if ref[2] not in o.vals:
                        m.linked.discard(p)
                        continue
                    v = o.vals[ref[2]]['y'] if ref[0] == 'attr' else f'view {ref[1]}.{ref[2]}'
                    if m.vals[p]['x'] != v:
                        m.vals[p]['x'] = v
                        changed = True
            if not changed:
                return

    # ---- operations
    def spec(self):
        import umd
        return [{'name': 'ex', 'class': umd.D0}]

    def in_use(self, folder, but=None):
        return any(m.folder == folder for n, m in self.owner.items() if n != but)

    def fault_plan(self, op, fn):
        """an I/O error at some step of fn"""
        def count():
            DISK.begin(None)
            fn()
            return len(DISK.trace)
        return None

    def do_construct(self, op, name, then_load=False):
        w = self.w
        from pyfileconf import PipelineManager
        folder = op['folder']
        if self.in_use(folder, name):
            return
        was = self.owner.get(name)
        if was is not None and was.folder != folder and was.loaded is False and op['r'] % 3 == 0:
            return
        kw = {}
        fault = op.get('fault') if not then_load or op['r'] % 2 else None
        path = w.path(folder)
        moved = None
        if fault == 'exclusive':
            kw = dict(auto_pdb=True, force_continue=True)
        elif fault == 'inway':
            # something which is not a folder is where the project should be
            w.write('inway', 'x')
            path = w.path('inway/project')
        elif fault == 'io':
            path = w.path(f"new{op['r']}")
            DISK.begin({'kind': 'EIO', 'among': 'w', 'at': 1 + int(op['pos'] * 6), 'when': 'before', 'span': 1})
        elif fault:
            fault = None
        m = Manager(name, folder)

        def make():
            pm = PipelineManager.__new__(PipelineManager)
            if op['r'] % 5 == 0:
                # held although it could not be constructed
                held.append(pm)
            pm.__init__(path, name=name, specific_class_config_dicts=self.spec(), **kw)
            return pm
        held = []
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = w.call(make)
        w.account_faults()
        DISK.begin(None)
        del held[:]
        if fault is not None:
            if not o.ok:
                w.count('nontrivial')
                w.count('fault:construct-' + fault)
                return
            if fault != 'io':
                raise Violation('no-error', f'{op}: constructing succeeded')
            # the fault was not reached: there is a manager of an empty project
            w.must('load of an empty project', o.value.load)
            del o
            from pyfileconf import context
            if was is not None:
                # it has replaced the manager. It is dropped again
                self.leave(name, op)
            context.active_managers.pop(name, None)
            return
        if not o.ok:
            raise Violation('unexpected-exception:' + where(o.exc), f'{op}: constructing {name} in {folder}: {o!r}')
        m.pm = o.value
        if was is not None:
            self.leave(name, op)
        self.owner[name] = m
        return True

    def leave(self, name, op):
        """the manager is not active any more"""
        m = self.owner.pop(name)
        self.w.count('nontrivial')
        if op['r'] % 3:
            self.old.append(m)
        else:
            m.pm = None

    def do_make(self, op, name):
        if self.do_construct(op, name, True):
            self.do_load(op, name)

    def do_load(self, op, name, what='load'):
        w = self.w
        m = self.owner.get(name)
        if m is None or m.pm is None:
            return
        fault = op.get('fault')
        if fault in ('syntax', 'missing'):
            self.write_dict(m.folder, fault)
        elif fault == 'io':
            DISK.begin({'kind': 'EIO', 'among': 'any', 'at': 1 + int(op['pos'] * 15), 'when': 'before', 'span': 1})
        o = w.call(getattr(m.pm, what))
        w.account_faults()
        DISK.begin(None)
        if fault in ('syntax', 'missing'):
            self.write_dict(m.folder)
            w.count('fault:load-' + fault)
            if o.ok and fault == 'syntax':
                raise Violation('no-error', f'{op}: {what} succeeded')
        if not o.ok:
            if fault not in ('syntax', 'missing', 'io'):
                raise Violation('unexpected-exception:' + where(o.exc), f'{op}: {what} of {name} in {m.folder}: {o!r}')
            w.count('nontrivial')
            return
        if fault == 'missing':
            # modules are only imported when needed. The correct dictionary file is loaded again
            w.must(f'{what} of {name}', getattr(m.pm, what))
        m.loaded = True
        m.vals = {}
        m.linked = set()
        self.reset_vals(m)

    def do_reload(self, op, name):
        m = self.owner.get(name)
        if m is not None and m.loaded:
            self.do_load(op, name, 'reload')

    def do_drop(self, op, name):
        from pyfileconf import context
        if name in self.owner:
            self.leave(name, op)
            del context.active_managers[name]

    def do_forget(self, op, name):
        self.old.clear()

    def do_gc(self, op, name):
        gc.collect()

    def pick(self, m, rng):
        return rng.choice(sorted(m.vals))

    def do_update(self, op, name):
        w, rng = self.w, random.Random(op['r'])
        m = self.owner.get(name)
        if m is None or not m.loaded:
            return
        path = self.pick(m, rng)
        how = rng.choice(['pm', 'view', 'held'])
        v = rng.randrange(100000, 200000)
        if how == 'pm':
            w.must('update', m.pm.update, {'y': v}, path)
        else:
            from pyfileconf import Selector
            s = rng.choice(self.selectors) if how == 'held' and self.selectors else Selector()
            w.must('assignment', setattr, self.select(s, f'{name}.{path}'), 'y', v)
        m.vals[path]['y'] = v

    def do_reset(self, op, name):
        rng = random.Random(op['r'])
        m = self.owner.get(name)
        if m is None or not m.loaded:
            return
        path = self.pick(m, rng)
        self.w.must('reset', m.pm.reset, path)
        self.reset_vals(m, [path])

    def do_refresh(self, op, name):
        # updates are lasting
        rng = random.Random(op['r'])
        m = self.owner.get(name)
        if m is None or not m.loaded:
            return
        path = self.pick(m, rng)
        self.w.must('refresh', m.pm.refresh, path)
        ref = self.case['projects'][m.folder]['views'].get(path)
        if ref:
            m.linked.discard(path)

    def do_old(self, op, name):
        """what a manager which is not active any more does is its own business"""
        rng = random.Random(op['r'])
        if not self.old:
            return
        m = rng.choice(self.old)
        if not m.loaded:
            self.w.call(m.pm.load)
            return
        path = self.pick(m, rng)
        how = rng.choice(['run', 'get', 'update', 'reset', 'refresh', 'reload', 'section'])
        self.w.count('old:' + how)
        if how == 'update':
            self.w.call(m.pm.update, {'y': rng.randrange(300000, 400000)}, path)
        elif how == 'reload':
            self.w.call(m.pm.reload)
        elif how == 'section':
            self.w.call(m.pm.run, path.split('.')[0])
        else:
            self.w.call(getattr(m.pm, how), path)

    def do_hold(self, op, name):
        from pyfileconf import Selector
        rng = random.Random(op['r'])
        if rng.random() < 0.5:
            self.selectors.append(Selector())
        else:
            m = self.owner.get(name)
            if m is None or not m.loaded:
                return
            path = self.pick(m, rng)
            s = rng.choice(self.selectors) if self.selectors and rng.random() < 0.5 else Selector()
            self.views.append([name, path, self.select(s, f'{name}.{path}')])

    @staticmethod
    def select(s, path):
        for p in path.split('.'):
            s = getattr(s, p)
        return s

    # ---- checks
    def check(self, what):
        w = self.w
        from pyfileconf import Selector, PipelineManager
        from pyfileconf.exceptions.pipelinemanager import (NoPipelineManagerForFilepathException,
                                                           NoPipelineManagerForSectionPathException)
        # what cannot be told is read once, so that it follows from now on
        self.touch()
        self.follow()
        selectors = [Selector()] + self.selectors
        for name in self.case['names']:
            m = self.owner.get(name)
            o = w.call(PipelineManager.get_manager_by_section_path_str, name + '.s0.f0')
            if m is None:
                if o.ok or not isinstance(o.exc, NoPipelineManagerForSectionPathException):
                    raise Violation('path-lookup', f'{what}: there is no manager {name}: {self.which(o)}')
            elif not o.ok or o.value is not m.pm:
                raise Violation('path-lookup', f'{what}: {name} is in {m.folder}, but got {self.which(o)}')
            for i, s in enumerate(selectors):
                if (name in dir(s)) != (m is not None):
                    raise Violation('selector-names', f'{what}: selector {i}: {name}: {sorted(dir(s))}')
                for path in PATHS:
                    o = w.call(s.__contains__, f'{name}.{path}')
                    want = m is not None and m.loaded and path in m.vals
                    if (o.ok and o.value is True) != want or (want and not o.ok):
                        raise Violation('selector', f'{what}: selector {i}: {name}.{path}: {o!r}, expected {want}')
                    if want and (i == 0 or (i + len(path)) % 3 == 0):
                        self.see(what, f'selector {i}', m, path, lambda: self.select(s, f'{name}.{path}')())
            w.count('check:name')
            if m is None or not m.loaded:
                continue
            for path in m.vals:
                self.see(what, 'run', m, path, lambda: m.pm.run(path))
        for name, path, view in self.views:
            m = self.owner.get(name)
            if m is None or not m.loaded or path not in m.vals:
                o = w.call(view)
                if o.ok:
                    raise Violation('stale-view', f'{what}: {name}.{path}: got {short(o.value)}, but there is none')
            else:
                self.see(what, 'held view', m, path, lambda: view())
            w.count('check:view')
        # files
        for folder in FOLDERS + ['fa22', 'fb/nested']:
            for rel in ('pipeline_dict.py', 'defaults/s0/f0.py', 'not/there.py'):
                inner = None
                for m in self.owner.values():
                    if f'{folder}/'.startswith(m.folder + '/') and (inner is None or len(m.folder) > len(inner.folder)):
                        inner = m
                arg = f'{folder}/{rel}'
                o = w.call(PipelineManager.get_manager_by_filepath, arg if len(rel) % 2 else w.path(arg))
                if inner is None:
                    if o.ok or not isinstance(o.exc, NoPipelineManagerForFilepathException):
                        raise Violation('file-lookup', f'{what}: no manager has {arg}: {self.which(o)}')
                elif not o.ok or o.value is not inner.pm:
                    raise Violation('file-lookup', f'{what}: {arg} is of {inner.name} in {inner.folder}, but got '
                                                   f'{self.which(o)}')
                w.count('check:file')
        w.note_state([(n, m.folder, m.loaded, sorted((p, repr(v)) for p, v in m.vals.items()))
                      for n, m in sorted(self.owner.items())])

    def which(self, o):
        if not o.ok:
            return repr(o)
        for n, m in list(self.owner.items()) + [('(old) ' + m.name, m) for m in self.old]:
            if m.pm is o.value:
                return f'{n} in {m.folder}'
        return f'a forgotten manager {getattr(o.value, "name", None)}'

    def touch(self):
        for m in list(self.owner.values()):
            if not m.loaded:
                continue
            for p, ref in self.case['projects'][m.folder]['views'].items():
                if p not in m.linked:
                    o = self.w.call(m.pm.run, p)
                    if not o.ok:
                        raise Violation('unexpected-exception:' + where(o.exc), f'run {m.name}.{p}: {o!r}')
                    m.vals[p]['x'] = seen(dict(o.value[1])['x'])
                    to = self.owner.get(ref[1])
                    if m.vals[p]['x'] is not None and to is not None and to.loaded and ref[2] in to.vals:
                        m.linked.add(p)

    def see(self, what, how, m, path, fn):
        w = self.w
        o = w.call(fn)
        if o.ok and callable(o.value):
            o = w.call(o.value)
        if not o.ok:
            raise Violation('unexpected-exception:' + where(o.exc), f'{what}: {how} {m.name}.{path} in {m.folder}: {o!r}\n'
                            + ''.join(traceback.format_exception(o.exc))[-1500:])
        site, args = P.strip(o.value)
        if site != self.site(m.folder, path):
            raise Violation('wrong-manager', f'{what}: {how} {m.name}.{path} executed {site}, expected '
                                             f'{self.site(m.folder, path)}')
        want = dict(m.vals[path])
        ref = self.case['projects'][m.folder]['views'].get(path)
        if ref:
            args['x'] = seen(args['x'])
            to = self.owner.get(ref[1])
            if path not in m.linked:
                # it may be there now
                del args['x'], want['x']
            elif args['x'] is None and (to is None or not to.loaded):
                # executed again while there was nothing to refer to
                m.linked.discard(path)
                del args['x'], want['x']
        if args != want:
            raise Violation('wrong-values', f'{what}: {how} {m.name}.{path} in {m.folder} gave {args}, expected {want}')
        w.count('check:item')


def seen(x):
    from pyfileconf.selector.models.itemview import is_item_view
    return 'view ' + x.section_path_str if is_item_view(x) else x


def run(w):
    s = Sim(w)
    s.write()
    for i, op in enumerate(w.case['ops']):
        CLOCK.advance(1.0)
        w.log(i, op)
        w.count('op:' + op['op'])
        do = getattr(s, 'do_' + op['op'])
        if op.get('gcat'):
            def on_step(n, at=tuple(op['gcat'])):
                if n in at:
                    w.count('fault:gc')
                    gc.collect()
            DISK.on_step = on_step
        host = s.owner.get(op['host']) if 'inside' in op else None
        if host is not None and host.loaded and op['name'] != host.name:
            inside(w, s, op, do, host)
        else:
            do(op, op['name'])
        DISK.on_step = None
        s.check(f'after {op["op"]}')


def inside(w, s, op, do, host):
    """the operation is made by the user code of another manager"""
    rng = random.Random(op['r'])
    path = rng.choice(sorted(host.vals))
    site = s.site(host.folder, path) if op['inside'] == 'run' else f'cfg:{host.folder}/{path}'
    done = []

    def hook(where_, args):
        if where_ == site and not done:
            done.append(1)
            w.count('inside:' + op['inside'])
            do(op, op['name'])
    w.hook = hook
    if op['inside'] == 'run':
        o = w.call(host.pm.run, path)
    else:
        o = w.call(host.pm.reset, path)
        s.reset_vals(host, [path])
    w.hook = None
    if not o.ok:
        raise Violation('unexpected-exception:' + where(o.exc), f'{op["inside"]} of {host.name}.{path} with {op}: {o!r}')
