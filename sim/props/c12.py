"""C12: loading preserves what users wrote and settles at once"""
import ast
import hashlib
import io
import json
import os
import random
import sys
import tokenize

from .. import seams
from ..seams import CLOCK, DISK
from ..world import Violation, HarnessError, short
from . import proj as P
from . import conf as C

RUNS = {'quick': 800, 'thorough': 60000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-2 generated projects over shared source modules, config files which were scaffolded or written by the '
        'user (comments, docstrings, imports in all places, helpers, conditionals, multi-line values, missing arguments), '
        'and 3-14 edits, changes of signatures, loads, reloads and restarts; every load is also executed by a twin '
        'process with another listing order, hash order and load order; some cases are executed again in a process with '
        'another hash seed; non-trivial: a load changed or kept a file which the user had edited')
STATES = 'hash of all project files after each operation'
ASSUMPTIONS = ['config files use line feeds as line ends, and neither chained nor tuple assignments',
               'a config file does not define a name which the default or annotation of an argument that is missing '
               'from it needs as something else']

ULIB = '''CONST = 7
OTHER = (1, 2)
user_value = 11
other_value = 12


class Thing:
    def __init__(self, x=0):
        self.x = x

    def __eq__(self, other):
        return type(other).__name__ == 'Thing' and other.x == self.x

    def __repr__(self):
        return f'Thing({self.x})'


def helper(x=1):
    return [x]
'''
HEADER = ('from typing import Any, Dict, List, Optional, TYPE_CHECKING\nimport simrt\nimport ulib\nimport ulib as ul\n'
          'import os.path\nfrom ulib import CONST, Thing\nfrom ulib import OTHER as OTH, helper\n'
          'from collections import OrderedDict as OD\n\nLOCAL = 13\n\n')
DEFAULTS = P.DEFAULTS + ['CONST', 'ul.CONST', 'ulib.CONST', 'OTH', '[CONST, 2]', "{'k': CONST}", 'LOCAL', 'Thing', 'helper']
ANNS = P.ANNS + [': Thing', ': Optional[Thing]', ': ul.Thing', ': List[Thing]', ': Dict[str, Thing]', ': OD', ': "Thing"']
ARGS = ['a', 'b', 'c', 'd', 'e', 'f', 'user_value', 'ab']


def gen_args(rng, names=ARGS, required=True):
    names = list(names)
    rng.shuffle(names)
    out, opt = [], False
    for name in names[:rng.randint(1, 5)]:
        if not opt and (not required or rng.random() < 0.6):
            opt = True
        d = rng.choice(DEFAULTS if rng.random() < 0.6 else DEFAULTS[10:]) if opt else None
        out.append({'n': name, 'd': d, 't': rng.choice(ANNS)})
    return out


EDITS = ['set', 'set', 'setlong', 'settq', 'remove', 'remove', 'rmimport', 'rms', 'comment', 'comment', 'trailing', 'blank',
         'docstring', 'helper', 'helper', 'ifhelper', 'cond', 'import', 'import', 'midimport', 'tryimport', 'typecheck',
         'defarg', 'importarg', 'forarg', 'classarg', 'semicolon', 'aug', 'anno', 'nonl', 'future', 'unicode', 'ownvar',
         'clash', 'clash', 'empty', 'indentcomment', 'tabs', 'string', 'lambda', 'comprehension', 'witharg', 'header', 'strip']


def gen(rng, tier):
    mods = {'um0': [], 'um1': []}
    for i in range(rng.randint(2, 3)):
        mods[rng.choice(('um0', 'um1'))].append({'k': 'f', 'n': f'f{i}', 'args': gen_args(rng)})
    mods[rng.choice(('um0', 'um1'))].append({'k': 'c', 'n': 'K0', 'args': gen_args(rng, required=False)})
    has_spec = rng.random() < 0.6
    if has_spec:
        mods['umd'] = [{'k': 'd', 'n': 'D0', 'args': gen_args(rng, ARGS[:5], required=False)}]
        if rng.random() < 0.3:
            mods['umd'][0]['key'] = 'ident'
    items = [it['n'] for m in mods.values() for it in m if it['k'] != 'd']
    projects = []
    for i in range(rng.choice([1, 1, 2])):
        pr = {'name': ('pm', 'pm2')[i], 'folder': ('pm', 'pm2')[i], 'tree': C.gen_paths(rng, items, rng.randint(2, 4))}
        if has_spec:
            sc = {'name': 'ex', 'class': 'D0', 'tree': {'s0': ['d0', 'd1'][:rng.randint(1, 2)]}}
            if mods['umd'][0].get('key'):
                sc['key_attr'] = 'ident'
            k = rng.random()
            if k < 0.25:
                sc['always_import_strs'] = ['from copy import deepcopy', 'import math'][:rng.randint(1, 2)]
                sc['always_assign_strs'] = ['local_thing = 5', 'other_thing = [1, 2]'][:rng.randint(1, 2)]
            elif k < 0.35:
                sc['always_import_strs'] = []
                sc['always_assign_strs'] = []
            sc['tree'] = C.with_empty(rng, sc['tree'])
            pr['spec'] = [sc]
        if rng.random() < 0.2:
            pr['defaults'] = 'config'
        projects.append(pr)
    case = {'modules': mods, 'projects': projects}
    paths = [(pr['name'], p) for pr in projects for p, _, _ in C.all_items(pr)]

    def edits():
        return [{'e': rng.choice(EDITS), 'r': rng.randrange(1 << 20)} for _ in range(rng.choice([1, 1, 2, 3, 5]))]

    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        m, p = rng.choice(paths)
        ops.append({'op': 'edit', 'm': m, 'p': p, 'edits': edits(), 'fresh': True})
    order = [pr['name'] for pr in projects]
    rng.shuffle(order)
    ops.append({'op': 'start', 'order': order, 'twin': rng.random() < 0.5, 'again': rng.random() < 0.4})
    for _ in range(rng.randint(2, 12 if tier == 'thorough' else 8)):
        k = rng.random()
        m, p = rng.choice(paths)
        if k < 0.5:
            ops.append({'op': 'edit', 'm': m, 'p': p, 'edits': edits()})
            if rng.random() < 0.6:
                ops.append(load_op(rng, m))
        elif k < 0.62:
            name = rng.choice([it['n'] for md in mods.values() for it in md])
            kind = next(it['k'] for md in mods.values() for it in md if it['n'] == name)
            ops.append({'op': 'sig', 'n': name, 'args': gen_args(rng, ARGS[:5] if kind == 'd' else ARGS,
                                                                required=kind == 'f')})
            if kind == 'd':
                # the class is what the user gave to the manager, it does not change before a restart
                ops.append({'op': 'restart'})
                ops.append({'op': 'start', 'order': list(order), 'twin': rng.random() < 0.3, 'again': rng.random() < 0.3})
            else:
                for x in order:
                    ops.append(dict(load_op(rng, x), kind='reload'))
        elif k < 0.7:
            ops.append({'op': 'section', 'm': m, 'p': p, 'text': rng.choice(
                ['', '# nothing\n', 'zz = 3\n', 'zz = 3', '\n\n# c\nzz = [1,\n   2]\n', '"""doc"""\nimport os\n'])})
        elif k < 0.78:
            ops.append({'op': 'use', 'm': m, 'p': p, 'how': rng.choice(['run', 'get', 'update', 'reset', 'refresh'])})
        elif k < 0.92:
            ops.append(load_op(rng, m))
        else:
            ops.append({'op': 'restart'})
            rng.shuffle(order)
            ops.append({'op': 'start', 'order': list(order), 'twin': rng.random() < 0.3, 'again': rng.random() < 0.3})
    for x in order:
        ops.append(load_op(rng, x))
    case['ops'] = ops
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    case['listing_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    if rng.random() < (0.04 if tier == 'quick' else 0.01):
        case['other_seed'] = rng.choice([34, 55, 89, 144])
    return case


def load_op(rng, m):
    return {'op': 'load', 'm': m, 'kind': rng.choice(['reload', 'reload', 'reload', 'load']), 'twin': rng.random() < 0.35,
            'salt': rng.randrange(1, 1 << 20), 'again': rng.random() < 0.4, 'dt': rng.choice([0.0, 0.001, 1.0, 60.0])}


# ---------------------------------------------------------------- what users do to files

def boundaries(text, after_imports=True):
    """indices of lines before which a statement can be put, after the imports and the selector"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    first = 0
    for i, st in enumerate(tree.body):
        if isinstance(st, (ast.Import, ast.ImportFrom)) or i == 0 and isinstance(st, ast.Expr) or \
                isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', None) == 's':
            first = st.end_lineno
    ends = {0}
    for st in tree.body:
        ends.add(st.end_lineno)
    starts = {min([st.lineno] + [d.lineno for d in getattr(st, 'decorator_list', ())]) - 1 for st in tree.body}
    ok = [i for i in sorted(ends | starts | {len(lines)}) if not any(
        min([st.lineno] + [d.lineno for d in getattr(st, 'decorator_list', ())]) - 1 < i < st.end_lineno for st in tree.body)]
    if after_imports:
        ok = [i for i in ok if i >= first] or [len(lines)]
    return lines, ok


def insert(text, new, r, after_imports=True):
    if text and not text.endswith('\n'):
        text += '\n'
    lines, ok = boundaries(text, after_imports)
    i = ok[r % len(ok)]
    return ''.join(lines[:i]) + new + ''.join(lines[i:])


def assigned(text):
    """plain assignments of one line each {name: line index}"""
    out = {}
    tree = ast.parse(text)
    lines = text.splitlines()
    for st in tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            name = st.targets[0].id
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            name = st.target.id
        else:
            continue
        if st.lineno == st.end_lineno and ';' not in lines[st.lineno - 1] and lines[st.lineno - 1].startswith(name):
            out.setdefault(name, []).append(st.lineno - 1)
    return {k: v[0] for k, v in out.items() if len(v) == 1}


def user_edit(text, e, r, args, key=None):
    """the text after the edit. args: names of the arguments of the item; the key attribute is not touched"""
    rng = random.Random(r)
    if '\f' in text:
        return text
    have = {k: v for k, v in assigned(text).items() if k in args}
    lines = text.splitlines(keepends=True)
    arg = rng.choice(sorted(have)) if have else None
    free = sorted(set(args) - bound(text))
    v = rng.randrange(100, 10000)

    def replace(name, new):
        out = list(lines)
        out[have[name]] = new
        return ''.join(out)

    if e == 'set' and arg:
        return replace(arg, f"{arg} = {rng.choice([v, repr(str(v)), [v], 'ulib_value()' if 'ulib_value' in text else v])}\n")
    if e == 'setlong' and arg:
        return replace(arg, f'{arg} = [\n    {v},  # first\n\n    {v + 1},\n    # last\n]  # end\n')
    if e == 'settq' and arg:
        return replace(arg, f'{arg} = """\n{v}\n# no comment\nfrom nowhere import nothing\n\n"""\n')
    if e == 'remove' and arg:
        return replace(arg, '')
    if e == 'defarg' and arg:
        return replace(arg, f'def {arg}(x=1):\n    y = {v}\n    return y\n')
    if e == 'importarg' and 'user_value' in args:
        if 'user_value' in have:
            lines[have['user_value']] = ''
            text = ''.join(lines)
        elif 'user_value' in bound(text):
            return text
        return insert(text, 'from ulib import user_value\n', r)
    if e == 'forarg' and arg:
        return replace(arg, f'for {arg} in range({v}):\n    pass\n')
    if e == 'classarg' and arg:
        return replace(arg, f'class {arg}:\n    z = {v}\n')
    if e == 'witharg' and arg:
        return replace(arg, f'import io\nwith io.StringIO() as {arg}:\n    pass\n{arg} = {v}\n')
    if e == 'cond' and arg:
        return replace(arg, f'if {v} > 3:\n    {arg} = {v}\nelse:\n    {arg} = 0\n')
    if e == 'semicolon' and arg:
        return replace(arg, f'own_{v} = 1; {arg} = own_{v} + {v}\n')
    if e == 'aug' and arg:
        return replace(arg, f'{arg} = 1\n{arg} += {v}\n')
    if e == 'anno' and arg:
        return replace(arg, f'{arg}: int = {v}\n')
    if e == 'trailing' and arg:
        line = lines[have[arg]].rstrip('\n')
        return text if '#' in line or '"""' in line else replace(arg, f'{line}  # note {v}\n')
    if e == 'lambda' and arg:
        return replace(arg, f'{arg} = (lambda a, b=2: {v})(1)\n')
    if e == 'comprehension' and arg:
        # a name in a scope of its own. Sometimes one which is to be appended, as the file does not set it
        other = rng.choice(sorted(args))
        if other in have and other != arg and v % 2:
            lines[have[other]] = ''
        return replace(arg, rng.choice([f'{arg} = [{other} for {other} in range({v % 5})]\n',
                                        f'{arg} = {{{other}: 1 for {other} in range({v % 5})}}\n',
                                        f'{arg} = (lambda {other}: {other})({v})\n',
                                        f'{arg} = sorted([{v}, 3], key=lambda {other}: -{other})\n']))
    if e == 'rmimport':
        return text.replace('from pyfileconf import Selector\n', '') if 'Selector()' not in text else text
    if e == 'rms':
        if 's = Selector()\n' in text and 's.' not in text.replace('os.', ''):
            text = text.replace('s = Selector()\n', '', 1)
            return text.replace('from pyfileconf import Selector\n', '', 1) if v % 2 else text
        return text
    if e == 'comment':
        return insert(text, rng.choice([f'# note {v}\n', f'#{v}\n\n', f'# a = {v}\n', f'# from x import y{v}\n']), r,
                      rng.random() < 0.7)
    if e == 'header':
        tree = ast.parse(text)
        if tree.body and isinstance(tree.body[0], ast.Expr) or text.startswith('#!'):
            return text
        return rng.choice([f'#!/usr/bin/python\n# {v}\n', f'# Copyright {v}\n# all\n\n', '# -*- coding: utf-8 -*-\n']) + text
    if e == 'blank':
        return insert(text, '\n' * rng.randint(1, 4), r, False)
    if e == 'docstring':
        tree = ast.parse(text)
        if tree.body and isinstance(tree.body[0], ast.Expr) or future(text):
            return text
        return rng.choice([f'"""doc {v}"""\n', f'"""doc {v}\n\na = 3\n"""\n\n', f"'doc {v}'\n"]) + text
    if e == 'helper':
        return insert(text, rng.choice([f'def helper_{v}(x, a=1):\n    # inside\n    import os\n    b = 1\n    return x\n\n\n',
                                        f'class Helper{v}:\n    """doc"""\n    a = 1\n\n    def b(self):\n        pass\n',
                                        f'import functools\n\n\n@functools.wraps(print)\ndef deco_{v}():\n    pass\n']), r)
    if e == 'ifhelper':
        return insert(text, f'if __name__ == "__main__":\n    import sys\n    print({v})\n', r)
    if e == 'import':
        return insert(text, rng.choice(['import json\n', 'import os\n', 'from ulib import Thing\n', 'import ulib as ul\n',
                                        'from ulib import (\n    CONST,\n    Thing,  # the thing\n)\n', 'import os, json\n',
                                        'from ulib import OTHER as OTH\n', 'from typing import Optional, List\n',
                                        'import os.path\n']), r, False)
    if e == 'midimport':
        return insert(text, rng.choice(['from ulib import CONST\n', 'import ulib\n', 'import json as js\n']), r)
    if e == 'tryimport':
        return insert(text, 'try:\n    import nosuchlib as nsl\nexcept ImportError:\n    nsl = None\n', r)
    if e == 'typecheck':
        return insert(text, 'from typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    from ulib import Thing\n', r)
    if e == 'nonl':
        return text.rstrip('\n')
    if e == 'strip':
        return text.rstrip('\n') + '\n\n\n'
    if e == 'future':
        tree = ast.parse(text)
        if future(text):
            return text
        if tree.body and isinstance(tree.body[0], ast.Expr):
            ls = text.splitlines(keepends=True)
            end = tree.body[0].end_lineno
            return ''.join(ls[:end]) + 'from __future__ import division\n' + ''.join(ls[end:])
        return 'from __future__ import division\n' + text
    if e == 'unicode':
        return insert(text, f'# häß ☃ {v}\n', r, False)
    if e == 'ownvar':
        return insert(text, f'own_{v} = {v}\n', r)
    if e == 'string':
        return insert(text, f'own_{v} = "# not a comment, a = 3"\n', r)
    if e == 'clash':
        # a name which defaults and annotations use too
        name = rng.choice(['CONST', 'Thing', 'helper', 'OTH', 'LOCAL', 'ul', 'Any', 'Optional', 'OD', 'ulib'])
        if name in {n.id for n in ast.walk(ast.parse(text)) if isinstance(n, ast.Name)} | bound(text):
            return text
        text = insert(text, rng.choice([f'{name} = {v}\n', f'from ulib import other_value as {name}\n',
                                        f'def {name}():\n    return {v}\n']), r)
        have = {k: i for k, i in assigned(text).items() if k in args}
        lines = text.splitlines(keepends=True)
        at = next(i for i, line in enumerate(lines) if name in line)
        later = sorted(k for k, i in have.items() if i > at)
        if later:
            lines[have[later[0]]] = f'{later[0]} = {name}\n'
        return ''.join(lines)
    if e == 'indentcomment':
        return insert(text, f'def with_comment_{v}():\n        # deep\n    # shallow\n    pass\n    # after\n', r)
    if e == 'tabs':
        return insert(text, f'if True:\n\town_{v} = 1\n', r)
    if e == 'empty':
        return rng.choice(['', '\n', '   \n\n', '# only this\n'])
    return text


def future(text):
    return any(isinstance(st, ast.ImportFrom) and st.module == '__future__' for st in ast.parse(text).body)


# ---------------------------------------------------------------- what has to hold for a file

def bound(text):
    """names which the file defines"""
    out = set()

    def visit(node):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            out.add(node.name)
            return
        if isinstance(node, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split('.')[0] for a in node.names)
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            out.add(node.id)
        if isinstance(node, ast.If) and isinstance(node.test, ast.Name) and node.test.id == 'TYPE_CHECKING':
            return
        for c in ast.iter_child_nodes(node):
            visit(c)
    visit(ast.parse(text))
    return out


def comments(text):
    return [t.string for t in tokenize.generate_tokens(io.StringIO(text).readline) if t.type == tokenize.COMMENT]


def used_names(expr):
    return {n.id for n in ast.walk(ast.parse(expr)) if isinstance(n, ast.Name)}


def execute(text, what):
    ns = {'__name__': 'config'}
    had = set(sys.modules)
    try:
        exec(compile(text, what, 'exec'), ns)
    except BaseException as e:
        raise Violation('broken-file', f'{what} cannot be executed: {e!r}\n{text}')
    finally:
        # otherwise it would be the harness which imported the user's modules
        for name in set(sys.modules) - had:
            del sys.modules[name]
    return ns


def check_text(w, what, old, new, item, always_assigns, always_imports, key=None, keyval=None):
    """new is old with what was missing"""
    old = old if old is not None else ''
    try:
        tree_new = ast.parse(new)
    except SyntaxError as e:
        raise Violation('broken-file', f'{what}: {e}\n{new}')
    tree_old = ast.parse(old)
    if ast.get_docstring(tree_old) is not None and ast.get_docstring(tree_old) != ast.get_docstring(tree_new):
        raise Violation('docstring-lost', show(what, old, new))
    # every line the user wrote, in order
    lines_old = [x for x in old.splitlines() if x.strip()]
    it = iter(new.splitlines())
    for line in lines_old:
        if not any(line == x for x in it):
            raise Violation('text-lost', f'{line!r}: ' + show(what, old, new))
    if comments(old) != comments(new):
        raise Violation('comments-changed', show(what, old, new))
    # what was added
    d_old = [ast.dump(st) for st in tree_old.body]
    k = 0
    added = []
    for st in tree_new.body:
        if k < len(d_old) and ast.dump(st) == d_old[k]:
            k += 1
        else:
            added.append(st)
    if k < len(d_old):
        raise Violation('statements-changed', show(what, old, new))
    names = []
    imported = []
    had = bound(old)
    for st in added:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            names.append(st.targets[0].id)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            names.append(st.target.id)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            imported.extend((a.asname or a.name).split('.')[0] for a in st.names)
            for a in st.names:
                if '.' not in (a.asname or a.name) and (a.asname or a.name) in had:
                    raise Violation('name-replaced', f'{ast.unparse(st)}: ' + show(what, old, new))
        else:
            raise Violation('something-added', f'{ast.unparse(st)}: ' + show(what, old, new))
    args = ([{'n': key, 'd': None, 't': ''}] if key else []) + item['args']
    want = [n for n in dict.fromkeys(always_assigns + [a['n'] for a in args]) if n not in had]
    # annotations without a value do not define anything, the user may have done that for another reason
    declared = {st.target.id for st in tree_old.body if isinstance(st, ast.AnnAssign) and st.value is None}
    if sorted(names) != sorted(n for n in want if n not in declared):
        raise Violation('wrong-additions', f'added {names}, missing were {want}: ' + show(what, old, new))
    allowed = {'Selector'} | set(always_imports)
    for a in item['args']:
        allowed |= used_names(a['d']) if a['d'] else set()
        if a['t']:
            allowed |= used_names(a['t'][2:].strip('"'))
    for n in imported:
        if n not in allowed:
            raise Violation('wrong-additions', f'import of {n}: ' + show(what, old, new))
    if len(set(imported)) != len(imported):
        raise Violation('wrong-additions', f'imported twice {imported}: ' + show(what, old, new))
    # values
    ns_old, ns = execute(old, what) if old.strip() else {}, execute(new, what)
    for n in had:
        if n in names:
            continue
        a, b = ns_old.get(n), ns.get(n)
        if type(a).__module__ in ('builtins',) and not callable(a) and type(a).__name__ != 'module' and a != b or \
                callable(a) and not callable(b):
            raise Violation('value-changed', f'{n} was {a!r} and is {b!r}: ' + show(what, old, new))
    defaults = {a['n']: eval_default(a['d']) for a in item['args']}
    if key:
        defaults[key] = keyval
    if own_names(old):
        w.count('check:user-name')
    for n in names:
        if n in defaults and not equal(ns[n], defaults[n]):
            raise Violation('wrong-default', f'{n} is {ns[n]!r} instead of {defaults[n]!r}: ' + show(what, old, new))
    return ns


def equal(a, b):
    if callable(a) or callable(b):
        return getattr(a, '__name__', 0) == getattr(b, '__name__', 1)
    return a == b


def show(what, old, new):
    return f'{what}\n--- before\n{old}\n--- after\n{new}'


def own_names(text):
    """names which are something else in this file than where the items are defined"""
    header = header_names()
    ns = execute(text, 'edit') if text.strip() else {}
    return {n for n in bound(text) if n in header and not (
        equal(ns.get(n), header[n]) and getattr(ns.get(n), '__module__', 0) == getattr(header[n], '__module__', 0))}


def clashes(text, args):
    """whether an argument which has to be added needs a name that is something else in this file"""
    own = own_names(text)
    had = bound(text)
    return any(own & (used_names(a['d'] or '0') | used_names(a['t'][2:].strip('"') or '0'))
               for a in args if a['n'] not in had)


def header_names():
    ns = {}
    exec(HEADER.replace('import simrt\n', ''), ns)
    return ns


def eval_default(d):
    return None if d is None else eval(d, header_names())


# ---------------------------------------------------------------- running

class Sim:
    def __init__(self, w):
        self.w = w
        self.case = json.loads(json.dumps(w.case))
        self.projects = {pr['name']: pr for pr in w.case['projects']}
        self.items = P.Items(self.case)
        self.pms = {}
        st = w.state
        if 'args' in st:
            for n, args in st['args'].items():
                self.items.by_name[n]['args'] = args
        st.setdefault('args', {})
        self.st = st

    def write_modules(self):
        for mod, items in self.case['modules'].items():
            self.w.write(f'src/{mod}.py', HEADER + '\n\n'.join(P.item_src(mod, it) for it in items))

    def files(self, m):
        return self.w.snapshot(self.projects[m]['folder'])

    def item_files(self, m):
        """{file relative to the folder: (path, item, spec)}"""
        pr = self.projects[m]
        base = pr.get('defaults', 'defaults')
        out = {}
        for p, n, spec in C.all_items(pr):
            out[f"{base}/{p.replace('.', '/')}.py"] = (p, self.items.by_name[n], spec)
        return out

    def make(self, m):
        pr = self.projects[m]
        kw = {'default_config_folder_name': pr['defaults']} if 'defaults' in pr else {}
        self.pms[m] = P.make_manager(self.w, self.case, pr, **kw)

    def check(self, m, before, what):
        """the files of m after a load"""
        w, pr = self.w, self.projects[m]
        after = self.files(m)
        base = pr.get('defaults', 'defaults')
        item_files = self.item_files(m)
        values = {}
        for rel in sorted(set(before) | set(after)):
            old, new = before.get(rel), after.get(rel)
            if new is None:
                raise Violation('file-lost', f'{what}: {rel}')
            if rel in item_files:
                p, it, spec = item_files[rel]
                sc = next((x for x in pr.get('spec', ()) if p.startswith(x['name'] + '.')), None) if spec else None
                assigns, imports = ['s'], []
                if sc and 'always_assign_strs' in sc:
                    assigns = [x.split(' ')[0] for x in sc['always_assign_strs']]
                    imports = [x.split(' ')[-1] for x in sc['always_import_strs']]
                key = it.get('key', 'name') if spec else None
                ns = check_text(w, f'{what}: {rel}', old, new, it, assigns, imports, key, p.split('.')[-1])
                values[p] = (it, {n: ns.get(n) for n in [a['n'] for a in it['args']] + ([key] if key else [])})
                if old is not None and old != new:
                    w.count('nontrivial')
                    w.count('check:extended')
                elif old is not None:
                    w.count('check:kept')
                else:
                    w.count('check:scaffolded')
            elif old is None:
                if not rel.endswith('/section.py'):
                    raise Violation('file-added', f'{what}: {rel}')
                if new.strip():
                    raise Violation('file-added', f'{what}: {rel} with {new!r}')
            elif old != new:
                raise Violation('file-changed', show(f'{what}: {rel}', old, new))
        for rel in item_files:
            if rel not in after:
                raise Violation('file-missing', f'{what}: {rel}')
        return values

    def check_values(self, m, values, what):
        """the items run with what is in their files"""
        for p, (it, want) in values.items():
            if any(callable(x) or hasattr(x, 'read') for x in want.values()):
                continue
            site, args = P.strip(self.w.must(f'{what}: run {p}', self.pms[m].run, p))
            if {k: (args.get(k), equal(args.get(k), v)) for k, v in want.items() if not equal(args.get(k), v)}:
                raise Violation('wrong-values', f'{what}: {m}.{p} ran with {args}, its file gives {want}')

    def salt(self, salt):
        DISK.listing_salt = salt
        seams.salt_section_paths(salt)


def run(w):
    s = Sim(w)
    st = w.state
    if st['incarnation'] == 0:
        w.write('src/ulib.py', ULIB)
        s.write_modules()
        for pr in w.case['projects']:
            P.write_project(w, w.case, pr)
        st['pc'] = 0
    ops = w.case['ops']
    while st['pc'] < len(ops):
        op = ops[st['pc']]
        CLOCK.advance(op.get('dt', 1.0))
        w.log(st['pc'], op)
        w.count('op:' + op['op'])
        st['pc'] += 1
        if op['op'] == 'restart':
            st['now'] = CLOCK.now
            w.restart()
        step(w, s, op)
        files = {m: s.files(m) for m in s.projects}
        digest = hashlib.md5(json.dumps(files, sort_keys=True).encode()).hexdigest()
        w.note_state(digest)
        w.log('  files', digest)
    if w.case.get('other_seed'):
        other_seed(w)


def other_seed(w):
    """the same history in a process with another hash seed writes the same files"""
    from ..pool import Worker
    was, DISK.active, CLOCK.active = DISK.active, False, False
    case = {k: v for k, v in w.case.items() if k != 'other_seed'}
    worker = Worker(w.case['other_seed'], os.path.join(os.path.dirname(w.root), 'other'))
    try:
        r = worker.run(case['property'], case)
    finally:
        worker.close()
        DISK.active, CLOCK.active = was, True
    mine = [t for t in w.trace if t.startswith('  files')]
    theirs = [t for t in r['trace'] if t.startswith('  files')]
    w.count('check:other-hash-seed')
    if r['status'] != 'ok':
        raise Violation('depends-on-hash-seed', f"fails with another hash seed: {r['violation']}")
    if mine != theirs:
        i = next(i for i, (a, b) in enumerate(zip(mine + [''], theirs + [''])) if a != b)
        raise Violation('depends-on-hash-seed', f'the files differ after operation {i}')


def step(w, s, op):
    k = op['op']
    if k == 'start':
        for m in op['order']:
            w.must('constructing', s.make, m)
        before = {m: s.files(m) for m in s.projects}
        if op['twin']:
            def other():
                s.salt(4711)
                for m in reversed(op['order']):
                    s.pms[m].load()
                for m in op['order']:
                    s.pms[m].reload()
                return {m: s.files(m) for m in s.projects}
            theirs = P.twin(w, other)
        values = {}
        for m in op['order']:
            w.must('load', s.pms[m].load)
            values[m] = s.check(m, before[m], f'load of {m}')
        if op['twin']:
            same_files(w, s, theirs)
        for m in op['order']:
            s.check_values(m, values[m], 'load')
            if op['again']:
                again(w, s, m, 'reload')
    elif k == 'edit':
        edit(w, s, op)
    elif k == 'section':
        pr = s.projects[op['m']]
        sec = op['p'].rpartition('.')[0].replace('.', '/')
        rel = f"{pr['folder']}/{pr.get('defaults', 'defaults')}/{sec}/section.py"
        if w.read(rel) is not None:
            w.write(rel, op['text'])
    elif k == 'sig':
        it = s.items.by_name[op['n']]
        for m in s.projects:
            for rel, (p, x, _) in s.item_files(m).items():
                text = w.read(s.projects[m]['folder'] + '/' + rel)
                if x is it and text is not None and clashes(text, op['args']):
                    return
        it['args'] = op['args']
        s.st['args'][op['n']] = op['args']
        s.write_modules()
        CLOCK.advance(2.0)
    elif op['m'] not in s.pms:
        return
    elif k == 'load':
        m = op['m']
        before = s.files(m)
        if op['twin']:
            def other():
                s.salt(op['salt'])
                for x in s.pms:
                    if x != m:
                        s.pms[x].reload()
                getattr(s.pms[m], 'load')()
                s.pms[m].reload()
                return {m: s.files(m)}
            if op['kind'] == 'reload':
                theirs = P.twin(w, other)
        w.must(op['kind'], getattr(s.pms[m], op['kind']))
        values = s.check(m, before, f"{op['kind']} of {m}")
        if op['twin'] and op['kind'] == 'reload':
            same_files(w, s, theirs)
        s.check_values(m, values, op['kind'])
        if op['again']:
            again(w, s, m, op['kind'])
    elif k == 'use':
        m, p = op['m'], op['p']
        before = s.files(m)
        pm = s.pms[m]
        rel = {x[0]: r for r, x in s.item_files(m).items()}[p]
        arg = s.item_files(m)[rel][1]['args'][0]['n']
        fn = {'run': lambda: pm.run(p), 'get': lambda: pm.get(p), 'update': lambda: pm.update({arg: 4321}, p),
              'reset': lambda: pm.reset(p), 'refresh': lambda: pm.refresh(p)}[op['how']]
        w.call(fn)
        if s.files(m) != before:
            raise Violation('file-changed', f'{op} changed files')


def again(w, s, m, kind):
    """with nothing changed, nothing is written"""
    before = s.files(m)
    w.must(kind, getattr(s.pms[m], kind))
    after = s.files(m)
    if before != after:
        rel = next(r for r in sorted(set(before) | set(after)) if before.get(r) != after.get(r))
        raise Violation('not-settled', show(f'{kind} again changed {rel}', before.get(rel), after.get(rel)))
    w.count('check:settled')


def same_files(w, s, theirs):
    w.count('check:twin')
    for m, files in theirs.items():
        mine = s.files(m)
        for rel in sorted(set(mine) | set(files)):
            if mine.get(rel) != files.get(rel):
                raise Violation('depends-on-order', show(f'{rel} with another listing, hash and load order',
                                                         files.get(rel), mine.get(rel)))


def edit(w, s, op):
    m, p = op['m'], op['p']
    pr = s.projects[m]
    rel = P.config_rel(pr, p)
    text = w.read(rel)
    name = dict((x, n) for x, n, _ in C.all_items(pr))[p]
    it = s.items.by_name[name]
    args = [a['n'] for a in it['args']]
    if text is None:
        if not op.get('fresh'):
            return
        # a file which the user wrote before the first load
        text = ''
        if it['k'] == 'd':
            text = f"{it.get('key', 'name')} = {p.split('.')[-1]!r}\n"
        if op['edits'][0]['r'] % 2:
            text += ''.join(f'{a} = {i}\n' for i, a in enumerate(args) if (op['edits'][0]['r'] >> i) % 3)
    for e in op['edits']:
        if e['e'] == 'empty' and it['k'] == 'd':
            continue
        new = user_edit(text, e['e'], e['r'], args)
        try:
            compile(new, 'edit', 'exec')
        except SyntaxError as x:
            if '__future__' in str(x):
                # this edit went before it
                continue
            raise HarnessError(f"{e}: {x}\n{text}\n---\n{new}")
        try:
            execute(new, 'edit')
        except Violation:
            # this combination of edits does not work by itself
            continue
        text = new
    if w.read(rel) != text and not clashes(text, it['args']):
        w.count('nontrivial')
        w.write(rel, text)
