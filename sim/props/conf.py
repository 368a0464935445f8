"""
Projects with config values and the reference model of what every item runs with.
Shared by C03, C04, C09, C10, C11, C16.
"""
import copy

from ..world import Violation, HarnessError, short
from . import proj as P


# ---------------------------------------------------------------- values which do not compare like numbers do

# kinds whose values can be compared, as a whole
WHOLE = ['array', 'array2', 'series', 'frame', 'index', 'empty', 'empty_frame', 'short']
# kinds where nobody can say whether two are equal
VAGUE = ['in_list', 'in_dict', 'raises', 'vague', 'nan', 'na']


class Raises:
    """raises when it is compared"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        raise ValueError('cannot be compared')

    __hash__ = None


class NoBool:
    def __bool__(self):
        raise TypeError('neither true nor false')


class Vague(Raises):
    """comparing it gives something which is neither true nor false"""

    def __eq__(self, other):
        return NoBool()


def special(rng, fresh, kinds=WHOLE + VAGUE):
    return {'__special__': rng.choice(kinds), 'v': next(fresh)}


def real(x):
    """the value for what is in the case"""
    if isinstance(x, dict):
        if '__special__' in x:
            return _special(x['__special__'], x['v'])
        return {k: real(v) for k, v in x.items()}
    if isinstance(x, list):
        return [real(v) for v in x]
    if isinstance(x, tuple):
        return tuple(real(v) for v in x)
    return x


def _special(kind, v):
    import numpy as np
    import pandas as pd
    if kind == 'array':
        return np.array([v, v + 1])
    if kind == 'array2':
        return np.array([[v, 1], [2, v]])
    if kind == 'short':
        return np.array([v])
    if kind == 'empty':
        return np.array([])
    if kind == 'series':
        return pd.Series([v, 2])
    if kind == 'frame':
        return pd.DataFrame({'a': [v, 2]})
    if kind == 'empty_frame':
        return pd.DataFrame()
    if kind == 'index':
        return pd.Index([v, 2])
    if kind == 'na':
        return pd.NA
    if kind == 'nan':
        return float('nan')
    if kind == 'in_list':
        return [np.array([v, 1]), 2]
    if kind == 'in_dict':
        return {'k': pd.DataFrame({'a': [v]})}
    if kind == 'raises':
        return Raises(v)
    if kind == 'vague':
        return Vague(v)
    raise HarnessError(kind)


def like(v):
    """something similar, which is not equal"""
    if isinstance(v, dict):
        return v if '__special__' in v else list(v.items())
    if isinstance(v, list):
        return tuple(v)
    if isinstance(v, tuple):
        return list(v)
    return f' {v}' if isinstance(v, str) else str(v)


def expr(x):
    """how a user writes the value in a config file"""
    if not isinstance(x, dict) or '__special__' not in x:
        return repr(x)
    v = x['v']
    n, p = "__import__('numpy')", "__import__('pandas')"
    return {'array': f'{n}.array([{v}, {v} + 1])', 'array2': f'{n}.array([[{v}, 1], [2, {v}]])', 'short': f'{n}.array([{v}])',
            'empty': f'{n}.array([])', 'series': f'{p}.Series([{v}, 2])', 'frame': f"{p}.DataFrame({{'a': [{v}, 2]}})",
            'empty_frame': f'{p}.DataFrame()', 'index': f'{p}.Index([{v}, 2])', 'na': f'{p}.NA', 'nan': "float('nan')",
            'in_list': f'[{n}.array([{v}, 1]), 2]', 'in_dict': f"{{'k': {p}.DataFrame({{'a': [{v}]}})}}"}[x['__special__']]


WRITTEN = WHOLE + ['nan', 'na', 'in_list', 'in_dict']

PLAIN = (int, str, bool, type(None))


def canon(x):
    """the opposite: something which can be compared, for any value"""
    t = type(x)
    if t in PLAIN:
        return x
    if t is dict:
        return {k: canon(v) for k, v in x.items()}
    if t is list:
        return [canon(v) for v in x]
    if t is tuple:
        return tuple(canon(v) for v in x)
    if t is float:
        return 'NaN' if x != x else x
    if t in (Raises, Vague):
        return [t.__name__, x.v]
    kind = f'{t.__module__.split(".")[0]}.{t.__name__}'
    if kind in ('numpy.ndarray', 'pandas.Series', 'pandas.DataFrame', 'pandas.Index'):
        return [kind, list(x.shape), canon(x.values.tolist() if kind != 'numpy.ndarray' else x.tolist())]
    if kind == 'pandas.NAType':
        return [kind]
    return x


# ---------------------------------------------------------------- generation

def gen_paths(rng, names, n_items, sections=('s0', 's1', 's10', 'sx', 's0_', 'models', 'S1', 'happy'), deep=0.4, dup=0.3, own=0.15):
    """a tree of sections with items. The same function or class may be in several sections."""
    secs = list(sections)
    rng.shuffle(secs)
    tree = {}
    names = list(names)
    rng.shuffle(names)
    leaves = []
    for s in secs[:rng.randint(1, 3)]:
        if rng.random() < deep:
            inner = [t for t in ('t0', 't1', 't10', 's0', 's0_', 'params', 'S1', 'py') if t != s]
            rng.shuffle(inner)
            inner = inner[:rng.randint(1, 2)]
            if rng.random() < own:
                inner[0] = s
            sub = {}
            for t in inner:
                if rng.random() < 0.25:
                    sub[t] = {'u0': []}
                    leaves.append(sub[t]['u0'])
                else:
                    sub[t] = []
                    leaves.append(sub[t])
            tree[s] = sub
        else:
            tree[s] = []
            leaves.append(tree[s])
    pool = []
    while len(pool) < max(n_items, len(leaves)):
        pool.extend(names)
    k = 0
    for leaf in leaves:
        leaf.append(pool[k])
        k += 1
    for _ in range(max(0, n_items - len(leaves))):
        leaf = rng.choice(leaves)
        name = rng.choice(names) if rng.random() < dup else pool[k % len(pool)]
        k += 1
        if name not in leaf:
            leaf.append(name)
    return with_empty(rng, tree)


def with_empty(rng, tree):
    """sometimes with a section which has nothing in it"""
    if rng.random() < 0.12:
        k = rng.randrange(len(tree) + 1)
        entries = list(tree.items())
        entries.insert(k, ('e0', rng.choice([[], {}, {'t0': []}])))
        tree = dict(entries)
    return tree


def gen_world(rng, n_managers=None, n_items=None, spec=0.5, names=('pm', 'pm2'), second=0):
    mods = {'um0': [], 'um1': []}
    for i in range(rng.randint(2, 4)):
        mods[rng.choice(('um0', 'um1'))].append({'k': 'f', 'n': f'f{i}', 'args': P.gen_args(rng, n=rng.randint(2, 4))})
    for i in range(rng.randint(1, 2)):
        mods[rng.choice(('um0', 'um1'))].append(
            {'k': 'c', 'n': f'K{i}', 'args': P.gen_args(rng, ['x', 'y', 'c', 'd'], n=rng.randint(2, 4), required=False)})
    items = [it['n'] for m in mods.values() for it in m]
    has_spec = rng.random() < spec
    if has_spec:
        mods['umd'] = [{'k': 'd', 'n': 'D0', 'args': P.gen_args(rng, ['x', 'y', 'd'], n=rng.randint(2, 3), required=False)}]
        if rng.random() < 0.3:
            mods['umd'][0]['key'] = 'ident'
        if rng.random() < 0.3:
            mods['umd'][0]['call'] = 'execute'
        if rng.random() < second:
            mods['umd'][0]['second'] = 'again'
    n = n_managers or rng.choice([1, 1, 2])
    projects = []
    for i in range(n):
        pr = {'name': names[i], 'folder': names[i],
              'tree': gen_paths(rng, items, n_items or rng.randint(2, 6))}
        if has_spec and rng.random() < 0.8:
            sc = {'name': 'ex', 'class': 'D0', 'tree': {'s0': ['d0', 'd1', 'd10'][:rng.randint(1, 3)]}}
            if rng.random() < 0.3:
                sc['tree'] = {'s0': {'t0': ['d0'], 't1': ['d0', 'd1']}}
            if mods['umd'][0].get('key'):
                sc['key_attr'] = 'ident'
            if mods['umd'][0].get('call'):
                sc['execute_attr'] = 'execute'
            sc['tree'] = with_empty(rng, sc['tree'])
            pr['spec'] = [sc]
            if mods['umd'][0].get('second'):
                # the same class, run by another method
                pr['spec'].append({**sc, 'name': 'ex2', 'execute_attr': 'again', 'tree': {'s0': ['d0', 'd2']}})
                if rng.random() < 0.5:
                    pr['spec'].reverse()
                if i and rng.random() < 0.5:
                    pr['spec'].pop()
        projects.append(pr)
    if n == 2 and rng.random() < 0.2:
        projects[1]['folder'] = names[0] + '/nested'
    if rng.random() < 0.2:
        projects[-1]['defaults'] = 'config'
    return {'modules': mods, 'projects': projects}


def sections_of(pr):
    """all section paths of a project, outer before inner"""
    out = {}
    for path, _, _ in all_items(pr):
        parts = path.split('.')
        for i in range(1, len(parts)):
            out['.'.join(parts[:i])] = None
    return sorted(out, key=lambda s: (s.count('.'), s))


def all_items(pr):
    """[(path, item name, specific)]"""
    out = [(f'{sec}.{n}', n, False) for sec, n in P.tree_paths(pr['tree'])]
    for sc in pr.get('spec', ()):
        out.extend((f"{sc['name']}.{sec}.{n}", sc['class'], True) for sec, n in P.tree_paths(sc['tree']))
    return out


def item_args(case, name):
    for m in case['modules'].values():
        for it in m:
            if it['n'] == name:
                return [a['n'] for a in it['args']]
    raise HarnessError(name)


# ---------------------------------------------------------------- reference model

class Item:
    def __init__(self, path, name, specific, file):
        self.path = path
        self.name = name
        self.specific = specific
        self.file = file          # {arg: value} as loaded
        self.disk = dict(file)    # {arg: value} in the file on disk now
        self.lasting = {}
        self.transient = {}
        self.touched = False

    def values(self):
        return {**self.file, **self.lasting, **self.transient}


class Model:
    """what the configuration of every item is"""

    def __init__(self, case):
        self.case = case
        items = P.Items(case)
        self.projects = {pr['name']: pr for pr in case['projects']}
        self.items = {}      # manager -> path -> Item
        self.sections = {}   # manager -> section path ('' is the project) -> values as loaded
        self.disk_sections = {}
        for pr in case['projects']:
            d = {}
            for path, name, spec in all_items(pr):
                file = items.defaults(name)
                if spec:
                    file[items.by_name[name].get('key', 'name')] = path.split('.')[-1]
                d[path] = Item(path, name, spec, file)
            self.items[pr['name']] = d
            self.sections[pr['name']] = {}
            self.disk_sections[pr['name']] = {}

    def values(self, m, path):
        it = self.items[m][path]
        out = it.values()
        parts = path.split('.')
        for i in range(len(parts)):
            sec = '.'.join(parts[:i])
            for k, v in self.sections[m].get(sec, {}).items():
                if k in out:
                    out[k] = v
        return out

    def touch(self, m, path):
        self.items[m][path].touched = True

    def update(self, m, path, args, lasting=True):
        it = self.items[m][path]
        it.touched = True
        if lasting:
            it.lasting.update(args)
            for k in args:
                it.transient.pop(k, None)
        else:
            it.transient.update(args)

    def refresh(self, m, path):
        it = self.items[m][path]
        it.touched = True
        it.transient = {}
        it.file = dict(it.disk)

    def reset(self, m, path):
        it = self.items[m][path]
        it.touched = True
        it.transient, it.lasting = {}, {}
        it.file = dict(it.disk)

    def reset_section(self, m, sec):
        for s, v in list(self.disk_sections[m].items()):
            if s == sec or s.startswith(sec + '.'):
                self.sections[m][s] = dict(v)
        for path in self.items[m]:
            if path.startswith(sec + '.'):
                self.reset(m, path)

    def reload(self, m):
        self.sections[m] = copy.deepcopy(self.disk_sections[m])
        for it in self.items[m].values():
            it.transient, it.lasting = {}, {}
            it.file = dict(it.disk)
            it.touched = False

    def snapshot(self):
        return {m: {p: self.values(m, p) for p in items} for m, items in self.items.items()}


# ---------------------------------------------------------------- driving the real code

class Driver:
    """the real managers of a case"""

    def __init__(self, w, case=None):
        self.w = w
        self.case = case or w.case
        self.items = P.Items(self.case)
        self.projects = {pr['name']: pr for pr in self.case['projects']}
        self.pms = {}
        self.keep = []

    def write(self):
        P.write_modules(self.w, self.case)
        for pr in self.case['projects']:
            P.write_project(self.w, self.case, pr)

    def construct(self, m):
        pr = self.projects[m]
        kw = {'default_config_folder_name': pr['defaults']} if 'defaults' in pr else {}
        self.pms[m] = P.make_manager(self.w, self.case, pr, **kw)

    def start(self):
        for m in self.projects:
            self.w.must(f'constructing {m}', self.construct, m)
        for m in self.projects:
            self.w.must(f'loading {m}', self.pms[m].load)

    def rel(self, m, path):
        return P.config_rel(self.projects[m], path)

    def section_rel(self, m, sec):
        pr = self.projects[m]
        base = f"{pr['folder']}/{pr.get('defaults', 'defaults')}"
        return f"{base}/{sec.replace('.', '/')}/section.py" if sec else f'{base}/section.py'

    def edit(self, m, path, arg, expr):
        rel = self.rel(m, path)
        text = self.w.read(rel)
        if text is None:
            raise Violation('no-config-file', rel)
        self.w.write(rel, P.drop_line(text, arg) if expr is None else P.set_line(text, arg, expr))

    def edit_section(self, m, sec, values):
        self.w.write(self.section_rel(m, sec), ''.join(f'{k} = {v!r}\n' for k, v in values.items()))

    # -- ways to see what an item runs with
    def view(self, m, path):
        from pyfileconf import Selector
        v = getattr(Selector(), m)
        for part in path.split('.'):
            v = getattr(v, part)
        return v

    def second(self, m, path):
        return any(sc['execute_attr'] == 'again' for sc in self.projects[m].get('spec', ())
                   if path.startswith(sc['name'] + '.') and 'execute_attr' in sc)

    def site(self, m, path):
        """what is executed when the item is run"""
        name = dict((p, n) for p, n, _ in all_items(self.projects[m]))[path]
        return self.items.site(name) + (':second' if self.second(m, path) else '')

    def call_item(self, m, path, obj):
        name = dict((p, n) for p, n, _ in all_items(self.projects[m]))[path]
        it = self.items.by_name[name]
        if it['k'] == 'd':
            return getattr(obj, it['second'] if self.second(m, path) else it.get('call', '__call__'))()
        return obj()

    def see(self, m, path, how):
        """(site, args) or a dict of args"""
        pm = self.pms[m]
        if how == 'run':
            return P.strip(pm.run(path))
        if how == 'runview':
            return P.strip(pm.run(self.view(m, path)))
        if how == 'get':
            return P.strip(self.call_item(m, path, pm.get(path)))
        if how == 'getview':
            return P.strip(self.call_item(m, path, pm.get(self.view(m, path))))
        if how == 'call':
            r = self.view(m, path)()
            return P.strip(r if isinstance(r, tuple) else r())
        if how == 'item':
            return P.strip(self.call_item(m, path, self.view(m, path).item))
        if how == 'dotted':
            obj = pm
            for part in path.split('.'):
                obj = getattr(obj, part)
            return P.strip(self.call_item(m, path, obj))
        if how == 'attr':
            name = dict((p, n) for p, n, _ in all_items(self.projects[m]))[path]
            it = self.items.by_name[name]
            v = self.view(m, path)
            names = [a['n'] for a in it['args']]
            if it['k'] == 'f':
                kw = v.keywords
                return self.items.site(name), {n: kw[n] for n in names}
            if it['k'] == 'd':
                names.append(it.get('key', 'name'))
            return self.site(m, path), {n: getattr(v, n) for n in names}
        raise HarnessError(how)

    def check(self, m, path, how, want, what):
        w = self.w
        o = w.call(self.see, m, path, how)
        if not o.ok:
            import traceback
            from ..world import where
            raise Violation('unexpected-exception:' + where(o.exc), f'{what}: {how} {m}.{path} raised {o!r}\n'
                            + ''.join(traceback.format_exception(o.exc))[-1200:])
        site, args = o.value
        args, want = canon(args), canon(real(want))
        if site != self.site(m, path):
            raise Violation('wrong-item', f'{what}: {how} {m}.{path} executed {site}')
        if args != want:
            raise Violation('wrong-values', f'{what}: {how} {m}.{path} gave {args}, expected {want}\n'
                            + short(w.read(self.rel(m, path)) or '', 500))
        w.count('check:' + how)

    def expected_section(self, m, sec, model):
        """nested list of results of running a section"""
        pr = self.projects[m]
        cur = pr['tree']
        for part in sec.split('.'):
            cur = sub_of(cur, part)
        return self._exp(m, sec, cur, model)

    def _exp(self, m, sec, cur, model):
        if isinstance(cur, dict):
            return [self._exp(m, f'{sec}.{k}', v, model) for k, v in cur.items()]
        out = []
        for it in cur:
            if isinstance(it, dict):
                out.extend(self._exp(m, f'{sec}.{k}', v, model) for k, v in it.items())
            else:
                args = model.values(m, f'{sec}.{it}')
                out.append((self.items.site(it), tuple(sorted(canon(real(args)).items()))))
        return out


def sub_of(cur, part):
    if isinstance(cur, dict):
        return cur[part]
    for it in cur:
        if isinstance(it, dict) and part in it:
            return it[part]
    raise HarnessError(part)


HOWS = ['run', 'run', 'runview', 'get', 'getview', 'call', 'item', 'dotted', 'attr']
