"""Generated projects: description (JSON), source files, and helpers to drive the real code."""
import os
import pickle
import re
import shutil
import sys
import traceback

from ..world import Violation, HarnessError

# ---------------------------------------------------------------- description

DEFAULTS = ['None', '1', "'x'", '(1, 2)', '[3]', "{'k': 4}", '-5', '2.5', 'True', "''"]
ANNS = ['', '', '', ': int', ': str', ': Optional[int]', ': List[int]', ': Any']


def gen_args(rng, names=None, n=None, required=True):
    names = names or ['a', 'b', 'c', 'd', 'e']
    n = n if n is not None else rng.randint(1, 3)
    args = []
    opt = False
    for name in names[:n]:
        if not opt and (not required or rng.random() < 0.6):
            opt = True
        args.append({'n': name, 'd': rng.choice(DEFAULTS) if opt else None, 't': rng.choice(ANNS)})
    return args


def gen_modules(rng, n_funcs=4, n_classes=2, n_mods=2, prefix='um'):
    """items f0.. and K0.. spread over modules"""
    mods = {f'{prefix}{i}': [] for i in range(n_mods)}
    names = list(mods)
    for i in range(n_funcs):
        mods[rng.choice(names)].append({'k': 'f', 'n': f'f{i}', 'args': gen_args(rng)})
    for i in range(n_classes):
        mods[rng.choice(names)].append({'k': 'c', 'n': f'K{i}', 'args': gen_args(rng, ['x', 'y', 'z'], required=False)})
    return mods


def gen_tree(rng, names, sections=('s0', 's1', 's10', 'sx', 's0_', 'models', 'S1', 'happy'), depth=2, mixed=False):
    """spread the names over a nested dict of sections"""
    names = list(names)
    rng.shuffle(names)
    secs = list(sections)
    rng.shuffle(secs)
    tree = {}
    n_sec = max(1, min(len(names), rng.randint(1, 3)))
    parts = [names[i::n_sec] for i in range(n_sec)]
    for sec, part in zip(secs, parts):
        if not part:
            continue
        if depth > 1 and len(part) > 1 and rng.random() < 0.4:
            if mixed and rng.random() < 0.5:
                tree[sec] = [part[0], {rng.choice(['t0', 't1']): part[1:]}]
            else:
                tree[sec] = gen_tree(rng, part, ('t0', 't1', 't10', 's0', 's0_', 'params', 'S1', 'py'), depth - 1, mixed)
        else:
            tree[sec] = part
    return tree


def tree_paths(tree, prefix=''):
    """[(section path, leaf name)] in order"""
    out = []
    for sec, sub in tree.items():
        p = prefix + sec
        out.extend(_paths(sub, p))
    return out


def _paths(sub, p):
    out = []
    if isinstance(sub, dict):
        return tree_paths(sub, p + '.')
    for it in sub:
        if isinstance(it, dict):
            out.extend(tree_paths(it, p + '.'))
        else:
            out.append((p, it))
    return out


def tree_src(tree, quote):
    if isinstance(tree, dict):
        return '{' + ', '.join(f'{k!r}: {tree_src(v, quote)}' for k, v in tree.items()) + '}'
    if isinstance(tree, list):
        return '[' + ', '.join(tree_src(v, quote) for v in tree) + ']'
    return repr(tree) if quote else tree


# ---------------------------------------------------------------- source files

HEADER = 'from typing import Any, List, Optional\nimport simrt\n\n'


def sig(args, first=''):
    parts = [first] if first else []
    for a in args:
        if a['d'] is None:
            parts.append(a['n'] + a['t'])
        elif a['t']:
            parts.append(f"{a['n']}{a['t']} = {a['d']}")
        else:
            parts.append(f"{a['n']}={a['d']}")
    return ', '.join(parts)


def item_src(mod, it, tag=None):
    site = f"{mod}.{it['n']}"
    extra = f', _v={tag!r}' if tag is not None else ''
    names = [a['n'] for a in it['args']]
    if it['k'] == 'f':
        kw = ', '.join(f'{n}={n}' for n in names)
        return (f"def {it['n']}({sig(it['args'])}):\n"
                f"    return simrt.ev({site!r}, {kw}{extra})\n")
    if it['k'] == 'd':
        args = [{'n': it.get('key', 'name'), 'd': 'None', 't': ''}] + it['args']
        names = [a['n'] for a in args]
    else:
        args = it['args']
    kw = ', '.join(f'{n}=self.{n}' for n in names)
    sets = '\n'.join(f'        self.{n} = {n}' for n in names)
    call = it.get('call', '__call__')
    second = ''
    if it.get('second'):
        second = f"\n    def {it['second']}(self):\n        return simrt.ev({site + ':second'!r}, {kw}{extra})\n"
    return (f"class {it['n']}:\n"
            f"    def __init__({sig(args, 'self')}):\n{sets}\n\n"
            f"    def {call}(self):\n"
            f"        return simrt.ev({site!r}, {kw}{extra})\n" + second)


def module_src(mod, items, tag=None, extra=''):
    return HEADER + extra + '\n\n'.join(item_src(mod, it, tag) for it in items)


def dict_src(tree, where, tag=''):
    """pipeline_dict.py with imports of the items used"""
    used = {}
    for _, name in tree_paths(tree):
        used.setdefault(where[name], []).append(name)
    lines = [f"from {mod} import {', '.join(dict.fromkeys(names))}" for mod, names in used.items()]
    return '\n'.join(lines) + ('\n\n' if lines else '') + f'pipeline_dict = {tree_src(tree, False)}\n{tag}'


class Items:
    """lookup of item descriptions of a case"""

    def __init__(self, case):
        self.by_name = {}
        self.where = {}
        for mod, items in case['modules'].items():
            for it in items:
                self.by_name[it['n']] = it
                self.where[it['n']] = mod

    def site(self, name):
        return f'{self.where[name]}.{name}'

    def defaults(self, name):
        """what a scaffolded config file gives: required arguments are None"""
        out = {}
        for a in self.by_name[name]['args']:
            out[a['n']] = None if a['d'] is None else eval(a['d'])
        return out


def write_modules(w, case, tags=None):
    for mod, items in case['modules'].items():
        w.write(f'src/{mod}.py', module_src(mod, items, (tags or {}).get(mod)))


def write_project(w, case, proj, dicts=True):
    items = Items(case)
    if dicts:
        w.write(f"{proj['folder']}/pipeline_dict.py", dict_src(proj['tree'], items.where))
        for sc in proj.get('spec', ()):
            w.write(f"{proj['folder']}/{sc['name']}_dict.py", f"class_dict = {tree_src(sc['tree'], True)}\n")
    for rel, text in proj.get('files', {}).items():
        w.write(f"{proj['folder']}/{rel}", text)


def spec_dicts(case, proj):
    import importlib
    items = Items(case)
    out = []
    for sc in proj.get('spec', ()):
        cls = getattr(importlib.import_module(items.where[sc['class']]), sc['class'])
        d = {'name': sc['name'], 'class': cls}
        for k in ('key_attr', 'execute_attr', 'always_import_strs', 'always_assign_strs'):
            if k in sc:
                d[k] = sc[k]
        out.append(d)
    return out


def make_manager(w, case, proj, **kw):
    from pyfileconf import PipelineManager
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return PipelineManager(w.path(proj['folder']), name=proj['name'],
                               specific_class_config_dicts=spec_dicts(case, proj), **kw)


def config_rel(proj, path):
    return f"{proj['folder']}/{proj.get('defaults', 'defaults')}/{path.replace('.', '/')}.py"


def set_line(text, arg, expr):
    """what a user does who changes the value of an argument in a config file"""
    new = f'{arg} = {expr}'
    pat = re.compile(rf'^{arg}(\s*:[^=\n]*)?\s*=.*$', re.M)
    if text is not None and pat.search(text):
        return pat.sub(lambda m: f'{arg}{m.group(1) or ""} = {expr}', text, count=1)
    text = text or ''
    if text and not text.endswith('\n'):
        text += '\n'
    return text + new + '\n'


def drop_line(text, arg):
    """what a user does who does not want to set an argument any more"""
    return re.sub(rf'^{arg}(\s*:[^=\n]*)?\s*=.*\n?', '', text, count=1, flags=re.M)


def item_paths(proj, items):
    """[(path, item name, is specific)]"""
    out = [(f'{sec}.{n}', n, False) for sec, n in tree_paths(proj['tree'])]
    for sc in proj.get('spec', ()):
        out.extend((f"{sc['name']}.{sec}.{n}", sc['class'], True) for sec, n in tree_paths(sc['tree']))
    return out


def full_defaults(items, path, name, spec, sc=None):
    d = dict(items.defaults(name))
    if spec:
        key = items.by_name[name].get('key', 'name')
        d[key] = path.split('.')[-1]
    return d


def strip(result):
    """(site, args) of the result of simrt.ev"""
    if not (isinstance(result, tuple) and len(result) == 2 and isinstance(result[0], str)):
        raise Violation('wrong-result', f'an item returned {result!r}')
    return result[0], dict(result[1])


def twin(w, fn):
    """what fn() gives in a copy of this process, whose files are put back afterwards"""
    from ..seams import DISK
    backup = os.path.join(os.path.dirname(w.root), 'backup')
    was, DISK.active = DISK.active, False
    shutil.rmtree(backup, ignore_errors=True)
    shutil.copytree(w.root, backup, symlinks=True)
    DISK.active = was
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = ('ok', fn())
            except Violation as v:
                out = ('violation', (v.kind, v.detail))
            except BaseException:
                out = ('error', traceback.format_exc()[-2500:])
            data = pickle.dumps(out)
            while data:
                n = os.write(wfd, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b''
    while True:
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(rfd)
    os.waitpid(pid, 0)
    DISK.active = False
    for name in os.listdir(w.root):
        p = os.path.join(w.root, name)
        if os.path.isdir(p):
            shutil.rmtree(p)
        else:
            os.remove(p)
    shutil.copytree(backup, w.root, symlinks=True, dirs_exist_ok=True)
    shutil.rmtree(backup, ignore_errors=True)
    DISK.active = was
    if not buf:
        raise HarnessError('the twin died')
    kind, value = pickle.loads(buf)
    if kind == 'violation':
        raise Violation('twin-' + value[0], value[1])
    if kind == 'error':
        raise Violation('unexpected-exception:twin', value)
    return value
