"""Shared by C01 and C02: histories of a project on a disk with faults, against an undisturbed twin."""
import os
import pickle
import shutil
import sys
import traceback

from .. import seams
from ..seams import DISK, CLOCK
from ..world import Violation, HarnessError, short
from . import proj as P


def gen_base(rng, tier):
    mods = P.gen_modules(rng, n_funcs=rng.randint(3, 5), n_classes=rng.randint(1, 2))
    has_spec = rng.random() < 0.6
    if has_spec:
        mods['umd'] = [{'k': 'd', 'n': 'D0', 'args': P.gen_args(rng, ['x', 'y'], required=False)}]
        if rng.random() < 0.3:
            mods['umd'][0]['key'] = 'ident'
    names = [it['n'] for m in mods.values() for it in m if it['k'] != 'd']
    rng.shuffle(names)
    keep = rng.randint(1, len(names) - 1)
    tree = P.gen_tree(rng, names[:keep], mixed=rng.random() < 0.3)
    extra = names[keep:]
    pr = {'name': 'pm', 'folder': 'pm', 'tree': tree}
    if has_spec:
        sc = {'name': 'ex', 'class': 'D0', 'tree': {'s0': ['d0', 'd1'][:rng.randint(1, 2)]}}
        if mods['umd'][0].get('key'):
            sc['key_attr'] = 'ident'
        if rng.random() < 0.3:
            sc['always_import_strs'] = ['from copy import deepcopy']
            sc['always_assign_strs'] = ['local_thing = 5']
        pr['spec'] = [sc]
    return {'modules': mods, 'project': pr, 'extra': extra}


def gen_ops(rng, case, n):
    """operations on the project; which entries exist is decided when executing"""
    ops = [{'op': 'init'}, {'op': 'load'}]
    pre = rng.random()
    case['preexisting'] = pre < 0.75     # the user wrote the dict files before the first start
    pr = case['project']
    paths = [p for p, _, _ in P.item_paths(pr, P.Items(case))]
    secs = sorted({s for s, _ in P.tree_paths(pr['tree'])})
    extra = list(case['extra'])
    values = 100
    for _ in range(n):
        k = rng.random()
        if k < 0.27:
            ops.append({'op': 'reload'})
        elif k < 0.5 and extra:
            name = rng.choice(extra)
            sec = rng.choice(secs + ['n0', 'n0.n1', 'n1'])
            ops.append({'op': 'create', 'sec': sec, 'item': name})
        elif k < 0.6 and pr.get('spec'):
            sp = rng.choice(['s0', 's0', 'n0', 'n0.n1'])
            ops.append({'op': 'create_spec', 'path': f"ex.{sp}.{rng.choice(['e0', 'e1', 'd5'])}"})
        elif k < 0.85:
            values += 1
            ops.append({'op': 'edit', 'path': rng.choice(paths + ['@created']), 'arg': rng.randrange(3), 'v': values,
                        'style': rng.choice(['set', 'set', 'comment', 'helper', 'section', 'import'])})
        elif k < 0.93 and extra:
            ops.append({'op': 'declare', 'sec': rng.choice(secs + ['n2']), 'item': rng.choice(extra)})
        elif k < 0.97:
            ops.append({'op': 'use', 'path': rng.choice(paths)})
        else:
            ops.append({'op': 'restart'})
    return ops


class Session:
    """one incarnation"""

    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.pr = w.case['project']
        self.items = P.Items(w.case)
        self.pm = None
        st = w.state
        st.setdefault('values', {})      # path -> {arg: value} written by the user
        st.setdefault('secvals', {})
        st.setdefault('notes', {})       # path -> [text lines which must stay]
        st.setdefault('entries', None)   # path -> item name: registered for sure
        self.st = st

    # ---- files
    def files(self):
        return self.w.snapshot('pm')

    def dict_entries(self):
        """the entries the dict files on disk have now: {path: item name}"""
        out = {}
        for rel, var, pre in [('pipeline_dict.py', 'pipeline_dict', '')] + \
                [(f"{sc['name']}_dict.py", 'class_dict', sc['name'] + '.') for sc in self.pr.get('spec', ())]:
            text = self.w.read('pm/' + rel)
            if text is None:
                continue
            tree = parse_dict(text, var)
            for sec, n in P.tree_paths(tree):
                path = f'{pre}{sec}.{n}'
                if path in out:
                    raise Violation('entry-duplicated', f'{rel} has {path} twice:\n{text}')
                out[path] = n if not pre else next(s['class'] for s in self.pr['spec'] if s['name'] + '.' == pre)
        return out

    def expected(self, path, name):
        spec = self.items.by_name[name]['k'] == 'd'
        d = P.full_defaults(self.items, path, name, spec)
        d.update(self.st['values'].get(path, {}))
        return d

    # ---- operations. Each is (description, callable)
    def action(self, op):
        k = op['op']
        if k == 'init':
            def init():
                self.pm = P.make_manager(self.w, self.case, self.pr)
            return init
        if k == 'load':
            return lambda: self.pm.load()
        if k == 'reload':
            return lambda: self.pm.reload()
        if k == 'create':
            def create():
                import importlib
                mod = importlib.import_module(self.items.where[op['item']])
                self.pm.create(op['sec'], getattr(mod, op['item']))
            return create
        if k == 'create_spec':
            return lambda: self.pm.create(op['path'])
        if k == 'use':
            return lambda: self.pm.get(op['path'])
        raise HarnessError(k)

    def applicable(self, op):
        k = op['op']
        if k == 'create':
            # the section must hold items, not only sections
            entries = self.dict_entries()
            path = f"{op['sec']}.{op['item']}"
            if any(p.startswith(path + '.') for p in entries):
                return False
            if section_holds_only_sections(entries, op['sec']) or below_items(entries, op['sec']):
                return False
            return True
        if k == 'create_spec':
            if not self.pr.get('spec'):
                return False
            entries = self.dict_entries()
            sec = op['path'].rsplit('.', 1)[0]
            return not section_holds_only_sections(entries, sec) and not below_items(entries, sec)
        if k == 'declare':
            entries = self.dict_entries()
            if f"{op['sec']}.{op['item']}" in entries:
                return False
            return not section_holds_only_sections(entries, op['sec']) and not below_items(entries, op['sec'])
        if k == 'use':
            return op['path'] in self.dict_entries()
        return True

    def user_edit(self, op):
        w, st = self.w, self.st
        entries = self.dict_entries()
        path = op['path']
        if path == '@created':
            new = [p for p in entries if p not in {p for p, _, _ in P.item_paths(self.pr, self.items)}]
            if not new:
                return
            path = sorted(new)[op['v'] % len(new)]
        if path not in entries:
            return
        name = entries[path]
        rel = P.config_rel(self.pr, path)
        text = w.read(rel)
        args = [a['n'] for a in self.items.by_name[name]['args']]
        if op['style'] == 'section':
            sec = path.rsplit('.', 1)[0]
            rel = P.config_rel(self.pr, sec + '.section')
            text = w.read(rel) or ''
            note = f'unrelated_{op["v"]} = {op["v"]}'
            w.write(rel, text + ('' if text.endswith('\n') or not text else '\n') + note + '\n')
            st['notes'].setdefault(rel, []).append(note)
            return
        if not args:
            return
        arg = args[op['arg'] % len(args)]
        v = op['v']
        text = P.set_line(text, arg, repr(v))
        note = None
        if op['style'] == 'comment':
            note = f'# a note {v}'
            text = text.rstrip('\n') + f'\n{note}\n'
        elif op['style'] == 'helper':
            note = f'helper_{v} = [{v},\n            {v}]  # kept'
            text = text.rstrip('\n') + f'\n{note}\n'
        elif op['style'] == 'import':
            note = f'import textwrap as tw_{v}  # because'
            text = note + '\n' + text
        w.write(rel, text)
        st['values'].setdefault(path, {})[arg] = v
        if note:
            st['notes'].setdefault(rel, []).append(note)

    def declare(self, op):
        """the user adds an entry to pipeline_dict.py by hand"""
        text = self.w.read('pm/pipeline_dict.py')
        tree = parse_dict(text, 'pipeline_dict')
        cur = tree
        secs = op['sec'].split('.')
        for s in secs[:-1]:
            cur = cur.setdefault(s, {})
        cur.setdefault(secs[-1], []).append(op['item'])
        self.w.write('pm/pipeline_dict.py', P.dict_src(tree, self.items.where))

    # ---- observations
    def observe(self, what):
        """every registered entry runs with the values the user wrote (after a load in a fresh state)"""
        w = self.w
        entries = self.dict_entries()
        sure = self.st['entries'] or {}
        for path in sure:
            if path not in entries:
                raise Violation('entry-lost', f'{what}: {path} was registered and is not in the dict file any more')
        from pyfileconf import Selector
        s = Selector()
        for path, name in entries.items():
            r = w.must(f'{what}: run {path}', self.pm.run, path)
            site, args = P.strip(r)
            if site != self.items.site(name):
                raise Violation('wrong-item', f'{what}: {path} ran {site}')
            exp = self.expected(path, name)
            if args != exp:
                raise Violation('value-lost', f'{what}: {path} ran with {args}, expected {exp}\n'
                                + short(w.read(P.config_rel(self.pr, path)), 600))
            if f'pm.{path}' not in s:
                raise Violation('entry-not-selectable', f'{what}: {path}')
            w.count('check:values')
        for rel, notes in self.st['notes'].items():
            text = w.read(rel) or ''
            for note in notes:
                if note not in text:
                    raise Violation('user-text-lost', f'{what}: {note!r} is no longer in {rel}:\n{short(text, 800)}')
        w.note_state((tuple(sorted(entries)), tuple(sorted((p, tuple(sorted(v.items())))
                                                           for p, v in self.st['values'].items()))))

    # ---- undisturbed twin: the same operation in a forked copy of this process, then undone on disk
    def twin(self, op, observe=False, after=()):
        w = self.w
        backup = os.path.join(os.path.dirname(w.root), 'backup')
        was, DISK.active = DISK.active, False
        shutil.rmtree(backup, ignore_errors=True)
        shutil.copytree(w.root, backup, symlinks=True)
        DISK.active = was
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = None
            try:
                DISK.begin(None)
                o = w.call(self.action(op))
                for more in after:
                    w.must(str(more), self.action(more))
                steps = list(DISK.trace)
                DISK.begin(None)
                out = {'ok': o.ok, 'exc': repr(o), 'steps': steps, 'files': self.files(), 'dirs': w.dirs('pm'),
                       'results': None}
                if not o.ok:
                    out['tb'] = ''.join(traceback.format_exception(o.exc))[-1500:]
                if observe and o.ok:
                    out['results'] = self.results()
            except BaseException:
                out = {'ok': False, 'exc': traceback.format_exc()[-1500:], 'steps': [], 'files': {}, 'dirs': [],
                       'results': None, 'tb': ''}
            finally:
                data = pickle.dumps(out)
                while data:
                    n = os.write(wfd, data)
                    data = data[n:]
                os._exit(0)
        os.close(wfd)
        buf = b''
        while True:
            chunk = os.read(rfd, 1 << 16)
            if not chunk:
                break
            buf += chunk
        os.close(rfd)
        os.waitpid(pid, 0)
        DISK.active = False
        for name in os.listdir(w.root):
            p = os.path.join(w.root, name)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
        shutil.copytree(backup, w.root, symlinks=True, dirs_exist_ok=True)
        shutil.rmtree(backup, ignore_errors=True)
        DISK.active = was
        return pickle.loads(buf)

    def results(self):
        out = {}
        for path in self.dict_entries():
            o = self.w.call(self.pm.run, path)
            out[path] = repr(o.value) if o.ok else f'{type(o.exc).__name__}: {o.exc}'
        return out

    def check_files(self, what, before, after, dirs_after):
        """every file is absent, as before, or as after"""
        now = self.files()
        for rel in set(before) | set(now):
            b, a, n = before.get(rel), after.get(rel), now.get(rel)
            if n is None and b is not None and a is not None:
                raise Violation('file-lost', f'{what}: {rel} is gone')
            if n != b and n != a:
                if rel not in after and rel not in before:
                    raise Violation('unexpected-file', f'{what}: {rel} with {short(n, 300)!r}')
                raise Violation('file-damaged', f'{what}: {rel} is neither its previous nor its intended content.\n'
                                f'--- previous\n{short(b, 900) if b is not None else None}\n--- intended\n'
                                f'{short(a, 900) if a is not None else None}\n--- now\n{short(n, 900)}')
            self.w.count('check:files')


def parse_dict(text, var):
    import ast
    tree = ast.parse(text)
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == var:
            return _node(node.value)
    raise Violation('file-damaged', f'{var} is not in the dict file:\n{text}')


def _node(n):
    import ast
    if isinstance(n, ast.Dict):
        return {k.value: _node(v) for k, v in zip(n.keys, n.values)}
    if isinstance(n, ast.List):
        return [_node(x) for x in n.elts]
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Constant):
        return n.value
    raise Violation('file-damaged', f'unexpected {ast.dump(n)} in a dict file')


def section_holds_only_sections(entries, sec):
    """entries below `sec` exist, but none directly in it"""
    below = [p for p in entries if p.startswith(sec + '.')]
    return bool(below) and not any('.' not in p[len(sec) + 1:] for p in below)


def below_items(entries, sec):
    """a prefix of sec is a section with items directly in it, so no section can be created in it by create()"""
    parts = sec.split('.')
    for i in range(1, len(parts)):
        pre = '.'.join(parts[:i])
        if any('.' not in p[len(pre) + 1:] for p in entries if p.startswith(pre + '.')):
            return True
    return sec in entries or any('.'.join(parts[:i]) in entries for i in range(1, len(parts)))
