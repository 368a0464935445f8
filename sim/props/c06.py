"""C06: captured standard output is complete and always given back"""
import io
import logging
import sys

from ..seams import DISK, CLOCK
from ..world import Violation, HarnessError, raise_fault
from . import proj as P
from . import conf as C
from .c05 import gen_proj, FAULTS

RUNS = {'quick': 1500, 'thorough': 80000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 1-2 generated projects whose functions, classes and config files print in many ways, run each other '
        'nested, redirect or replace standard output, switch capturing and catch exceptions or not; 4-20 runs, iterations '
        'advanced in between, prints outside of runs, with exceptions and interrupts at seeded calls of user code, a log '
        'handler or filter which fails at seeded records, and disk errors of the log file; non-trivial: text was printed '
        'while it was captured')
STATES = 'hash of (what is captured by how many runs, text printed) after each operation'
ASSUMPTIONS = ['the text of a print must be found in the log, except for its line breaks (empty lines are not logged)',
               'what a before-run hook prints is not checked']
STYLES = ['plain', 'plain', 'two', 'nonl', 'multi', 'percent', 'unicode', 'write', 'flush', 'long', 'file', 'blank', 'brace',
          'writes', 'indent', 'trail', 'tab', 'sep']


def gen_script(rng, nodes, rank, in_file, n_gens, toggles):
    # each case of a product is a run of its own, so scripts which switch the option are not combined with products
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        k = rng.random()
        if k < 0.5:
            a = {'do': 'print', 's': rng.choice(STYLES)}
        elif k < 0.56:
            a = {'do': 'raise', 'x': rng.choice(FAULTS)}
        elif k < 0.60:
            a = {'do': 'redirect'}
        elif k < 0.63 and not in_file and toggles:
            a = {'do': 'hijack'}
        elif k < 0.66 and not in_file and toggles:
            a = {'do': 'option', 'v': rng.random() < 0.5}
        elif k < 0.70 and n_gens:
            a = {'do': 'gen_next', 'g': rng.randrange(n_gens)}
        elif rank > 0:
            a = {'do': rng.choice(['run', 'run', 'run', 'many', 'many' if toggles else 'product', 'get', 'view', 'reload']),
                 't': rng.randrange(max(0, rank - 4), rank)}
        else:
            continue
        a['catch'] = rng.random() < 0.6
        out.append(a)
    return out


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    case = {'modules': {}, 'projects': []}
    for name in ('pm', 'pm2')[:n]:
        mods, pr = gen_proj(rng, name)
        case['modules'].update(mods)
        case['projects'].append(pr)
        k = rng.random()
        if k < 0.15:
            pr['force_continue'] = True
        elif k < 0.25:
            pr['auto_pdb'] = True
    kinds = {it['n']: it for m in case['modules'].values() for it in m}
    nodes = [[pr['name'], p, [a['n'] for a in kinds[nm]['args']], spec] for pr in case['projects']
             for p, nm, spec in C.all_items(pr)]
    rng.shuffle(nodes)
    case['nodes'] = nodes
    toggles = rng.random() < 0.5
    n_gens = 0 if toggles else rng.choice([0, 1, 2])
    case['n_gens'] = n_gens
    case['scripts'] = {}
    for i, (m, p, _, _) in enumerate(nodes):
        case['scripts'][f'{m}.{p}'] = gen_script(rng, nodes, i, False, n_gens, toggles)
        if rng.random() < 0.4:
            case['scripts'][f'cfg:{m}.{p}'] = [a for a in gen_script(rng, nodes, i, True, 0, False) if a['do'] in
                                               ('print', 'raise', 'redirect', 'get', 'view', 'run')]
    ops = [{'op': 'option', 'v': True}]
    for _ in range(rng.randint(4, 20 if tier == 'thorough' else 12)):
        k = rng.random()
        op = None
        if k < 0.08:
            op = {'op': 'option', 'v': rng.random() < 0.7, 'how': rng.choice(['set', 'value', 'with'])}
        elif k < 0.2:
            op = {'op': 'print', 's': rng.choice(STYLES)}
        elif k < 0.25:
            op = {'op': 'stream', 's': rng.choice(['new', 'orig'])}
        elif k < 0.29:
            op = {'op': 'folder', 'v': rng.random() < 0.7}
        elif k < 0.40 and n_gens:
            op = {'op': 'do', 'a': {'do': rng.choice(['gen_next', 'gen_next', 'iter_new', 'gen_close']), 't':
                  rng.randrange(len(nodes)), 'g': rng.randrange(n_gens)}}
        else:
            op = {'op': 'do', 'a': {'do': rng.choice(['run', 'run', 'run', 'many', 'section', 'section' if toggles else 'product',
                                                     'get', 'view',
                                                     'reload', 'refresh', 'with_run']), 't': rng.randrange(len(nodes))}}
        if op['op'] == 'do' and rng.random() < 0.5:
            r = rng.random()
            if r < 0.4:
                op['log'] = {'at': rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), 'x': rng.choice(FAULTS + ['oserror']),
                             'by': rng.choice(['handler', 'filter', 'handler'])}
            elif r < 0.8:
                op['fault'] = {'at': rng.choice([0, 0, 1, 2, 3, 5]), 'x': rng.choice(FAULTS),
                               'when': rng.choice(['before', 'after'])}
            else:
                op['io'] = {'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES']), 'among': 'any', 'at': rng.randint(1, 8),
                            'when': rng.choice(['before', 'after', 'mid']), 'frac': 0.5, 'span': rng.choice([1, 2, 1000])}
        ops.append(op)
    case['ops'] = ops
    case['hash_salt'] = rng.choice([0, rng.randrange(1, 1 << 20)])
    return case


class Recorder(logging.Handler):
    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self.texts = []

    def fail(self, by):
        f = self.sim.log_fault
        if f and f['by'] == by:
            n = self.sim.log_count
            self.sim.log_count += 1
            if n == f['at']:
                self.sim.w.count(f"fault:log:{f['x']}")
                self.sim.w.log('  log fails with', f['x'])
                self.sim.cut = True
                raise_fault(f['x'], 'log')

    def handle(self, record):
        # errors of emit() are the business of each handler: this one lets them out
        self.emit(record)
        return True

    def emit(self, record):
        self.fail('handler')
        self.texts.append(record.getMessage())


class Sim:
    def __init__(self, w):
        self.w = w
        self.case = w.case
        self.projects = {pr['name']: pr for pr in self.case['projects']}
        self.nodes = self.case['nodes']
        self.items = P.Items(self.case)
        self.pms = {}
        self.gens = {}
        self.n = 0
        self.option = False
        self.capturing = []      # for every run in progress: does it capture
        self.hidden = 0          # user code redirected or replaced the stream
        self.expected = []       # texts which must be in the log
        self.printed = []        # (tokens, whole text without line breaks), in the same order
        self.maybe = set()       # tokens which were being printed while logging failed
        self.outside = []        # texts which must be in the stream and not in the log
        self.streams = []
        self.cut = False
        self.log_fault = None
        self.log_count = 0
        self.fault = None
        self.events = 0
        w.hook = self.hook
        self.rec = Recorder(self)
        self.logger = logging.getLogger('pyfileconf')
        self.logger.addHandler(self.rec)

        def flt(record):
            self.rec.fail('filter')
            return True
        self.logger.addFilter(flt)

    # -- printing
    def tokens(self, n):
        out = []
        for _ in range(n):
            self.n += 1
            out.append(f'<T{self.n}>')
        return out

    def say(self, style):
        """prints; the tokens must arrive where they belong"""
        toks = self.tokens(3 if style in ('two', 'multi', 'writes', 'sep') else 1)
        t = toks[0]
        captured = bool(self.capturing) and any(self.capturing) and not self.hidden
        text = {'plain': f'hello {t}', 'two': f'{toks[0]} {toks[1 % len(toks)]} {toks[-1]}', 'nonl': f'part {t}',
                'multi': f'{toks[0]}\n{toks[1 % len(toks)]}\n  {toks[-1]}', 'percent': f'100% %s %d {t} %(x)s',
                'unicode': f'\u00e4\u4e2d\U0001f600 {t}', 'write': f'{t}', 'flush': f'now {t}', 'long': 'x' * 5000 + t,
                'file': f'{t} there', 'blank': f'\n\n{t}\n\n', 'brace': '{} {x} ' + t, 'writes': ''.join(toks), 'indent': f'    {t}',
                'trail': f'{t}  ', 'tab': f'\t{t}\t', 'sep': '\t'.join(toks)}[style]
        if captured:
            self.w.count('nontrivial')
            self.w.count('check:printed')
            self.expected.extend(toks)
            self.printed.append((toks, text.replace('\n', '')))
        elif not self.hidden:
            self.outside.extend(toks)
        self.cut = False
        try:
            if style == 'two':
                print(*toks)
            elif style == 'sep':
                print(*toks, sep='\t')
            elif style == 'nonl':
                print(text, end='')
            elif style == 'write':
                sys.stdout.write(text + '\n')
            elif style == 'writes':
                for x in toks:
                    sys.stdout.write(x)
            elif style == 'flush':
                print(text, flush=True)
            elif style == 'file':
                print(text, file=sys.stdout)
            elif style == 'blank':
                print()
                print(text)
                print('')
            else:
                print(text)
        except BaseException:
            self.maybe.update(toks)
            raise

    # -- user code
    def hook(self, site, args):
        key = 'cfg:' + site[5:] if site.startswith('cfgv:') else args['w']
        n = self.events
        self.events += 1
        f = self.fault
        self.w.log('  ' + '  ' * len(self.capturing) + key)
        stream, hidden = sys.stdout, self.hidden
        option = self.option
        try:
            if f and f['at'] == n and f['when'] == 'before':
                self.user_fault(f, key)
            if n < 40 and len(self.capturing) < 8:
                for a in self.case['scripts'].get(key, ()):
                    if a['catch']:
                        try:
                            self.do(a)
                        except (Violation, HarnessError):
                            raise
                        except BaseException as e:
                            self.w.log('  ' + '  ' * len(self.capturing) + f'{key} caught {type(e).__name__}')
                    else:
                        self.do(a)
            if f and f['at'] == n and f['when'] == 'after':
                self.user_fault(f, key)
        except Violation as v:
            if self.w.broken is None:
                self.w.broken = v
            raise SystemExit('violation')
        return {} if site.startswith('cfgv:') else key

    def user_fault(self, f, key):
        self.w.count(f"fault:user:{f['x']}")
        self.w.log('  fault', f['x'])
        raise_fault(f['x'], key)

    def set_option(self, v, how='set'):
        from pyfileconf import options
        if how == 'value':
            options.log_stdout.value = v
        else:
            options.set_option('log_stdout', v)
        self.option = v

    def running(self, fn, *args):
        """one call which runs items: captures if the option is on now"""
        before, hidden = sys.stdout, self.hidden
        self.capturing.append(self.option)
        if self.option:
            # printed text is caught by this run even if the code around it redirected
            self.hidden = 0
        try:
            return fn(*args)
        finally:
            self.capturing.pop()
            captured = self.hidden
            replaced = sys.stdout is not before
            self.hidden = hidden
            if self.w.broken is None and replaced:
                self.w.broken = Violation('stdout-not-given-back', f'after {fn.__name__} of {args} standard output is '
                                          f'{type(sys.stdout).__name__} and not what it was before')
                raise SystemExit('violation')

    def runs(self, fn, *args):
        """a call of a manager which runs items"""
        if self.option:
            return self.running(fn, *args)
        # nothing is captured by this run itself; user code may replace the stream for good
        self.capturing.append(False)
        try:
            return fn(*args)
        finally:
            self.capturing.pop()

    def do(self, a):
        do = a['do']
        if do == 'print':
            return self.say(a['s'])
        if do == 'raise':
            self.w.count(f"fault:user:{a['x']}")
            raise_fault(a['x'], 'script')
        if do == 'redirect':
            import contextlib
            b = io.StringIO()
            self.hidden += 1
            try:
                with contextlib.redirect_stdout(b):
                    self.say('plain')
            finally:
                self.hidden -= 1
            return
        if do == 'hijack':
            # replaces the stream and never restores it. Only inside of a run which captures
            if not self.capturing or not self.capturing[-1]:
                return
            sys.stdout = io.StringIO()
            self.hidden += 1
            return
        if do == 'option':
            self.set_option(a['v'])
            return
        if do == 'gen_next':
            g = self.gens.get(a['g'])
            if g is None:
                return
            try:
                return self.runs(next, g)
            except StopIteration:
                self.gens.pop(a['g'], None)
                return
            except ValueError as e:
                if 'already executing' in str(e):
                    return
                self.gens.pop(a['g'], None)
                raise
            except BaseException:
                self.gens.pop(a['g'], None)
                raise
        if do == 'gen_close':
            g = self.gens.pop(a['g'], None)
            if g is not None and not g.gi_running:
                g.close()
            return
        m, p, args, spec = self.nodes[a['t']]
        pm = self.pms[m]
        self.w.count('op:' + do)
        same = [pp for mm, pp, _, _ in self.nodes[:a['t'] + 1] if mm == m]
        if do == 'run':
            return self.runs(pm.run, p)
        if do == 'many':
            return self.runs(pm.run, same[-3:])
        if do == 'section':
            if spec:
                return self.runs(pm.run, p)
            return self.runs(pm.run, p.rsplit('.', 1)[0])
        if do == 'product':
            # also updates, and config files print then, outside of its runs
            if any(f'cfg:{mm}.{pp}' in self.case['scripts'] for mm, pp, _, _ in self.nodes):
                return self.runs(pm.run, p)
            return self.runs(pm.run_product, p, [{'section_path_str': p, args[1]: self.n + i} for i in range(2)])
        if do == 'iter_new':
            if any(f'cfg:{mm}.{pp}' in self.case['scripts'] for mm, pp, _, _ in self.nodes):
                return
            self.gens[a['g']] = pm.run_product_gen(p, [{'section_path_str': p, args[1]: self.n + i} for i in range(3)])
            return
        if do == 'with_run':
            from pyfileconf import options
            was = self.option
            try:
                with options.set_option('log_stdout', True):
                    self.option = True
                    return self.runs(pm.run, p)
            finally:
                self.option = False
        if do == 'get':
            return pm.get(p)
        if do == 'view':
            from pyfileconf import Selector
            v = getattr(Selector(), m)
            for part in p.split('.'):
                v = getattr(v, part)
            return v.item
        if do == 'reload':
            return pm.reload()
        if do == 'refresh':
            return pm.refresh(p)
        raise HarnessError(do)

    # -- checks
    def check(self, what):
        import re
        logged = re.findall(r'<T\d+>', ''.join(self.rec.texts))
        sure = [t for t in logged if t not in self.maybe]
        want = [t for t in self.expected if t not in self.maybe]
        if sure != want:
            missing = [t for t in want if t not in sure]
            extra = [t for t in sure if t not in want]
            dup = sorted({t for t in sure if sure.count(t) > 1})
            raise Violation('wrong-log', f'{what}: missing in the log {missing[:5]}, must not be there {extra[:5]}, more '
                            f'than once {dup[:5]}' + ('' if missing or extra or dup else f'; order {sure[-8:]} instead of '
                                                      f'{want[-8:]}'))
        flat, pos = ''.join(self.rec.texts).replace('\n', ''), 0
        for toks, text in self.printed:
            if self.maybe.intersection(toks):
                continue
            pos = flat.find(text, pos)
            if pos < 0:
                at = flat.find(toks[0])
                raise Violation('changed-text', f'{what}: printed was {text!r}, the log has '
                                f'{flat[max(0, at - 10):at + len(text) + 10]!r}')
            pos += len(text)
        twice = [t for t in logged if t in self.maybe and logged.count(t) > 1]
        if twice:
            raise Violation('wrong-log', f'{what}: {twice} more than once in the log')
        out = re.findall(r'<T\d+>', ''.join(s.getvalue() for s in self.streams))
        out = [t for t in out if t in set(self.outside)]
        if out != [t for t in self.outside]:
            raise Violation('wrong-output', f'{what}: the stream got {out[-6:]} of what was printed outside of captured runs, '
                            f'expected {self.outside[-6:]}')
        self.w.count('check:log')


def run(w):
    w.broken = None
    sim = Sim(w)
    P.write_modules(w, w.case)
    for pr in w.case['projects']:
        P.write_project(w, w.case, pr)
    for m, p, args, spec in sim.nodes:
        full = f'{m}.{p}'
        text = 'import simrt\n' + (f'_r = simrt.cfgv({full!r})\n' if 'cfg:' + full in w.case['scripts'] else '')
        w.write(P.config_rel(sim.projects[m], p), text + f'w = {full!r}\n' + ''.join(f'{a} = None\n' for a in args[1:]))

    debugged = []

    def debugger(*a):
        debugged.append(a)
    for m, pr in sim.projects.items():
        kw = {'force_continue': True} if pr.get('force_continue') else {}
        if pr.get('auto_pdb'):
            kw['auto_pdb'] = debugger
        sim.pms[m] = w.must('constructing', P.make_manager, w, w.case, pr, **kw)
    for m in sim.projects:
        w.must('loading', sim.pms[m].load)
    orig = sys.stdout
    sim.streams.append(io.StringIO())
    sys.stdout = sim.streams[-1]
    for pc, op in enumerate(w.case['ops']):
        CLOCK.advance(1.0)
        w.log(pc, op)
        current = sys.stdout
        step(w, sim, op, current)
        if w.broken:
            raise w.broken
        sim.check(f'after {op}')
        w.note_state((sim.option, len(sim.expected), len(sim.outside)))
    sys.stdout = orig


def step(w, sim, op, current):
    k = op['op']
    w.count('op:' + k)
    if k == 'option':
        if op.get('how') == 'with':
            from pyfileconf import options
            with options.set_option('log_stdout', True):
                pass
            sim.option = False
        else:
            sim.set_option(op['v'], op.get('how', 'set'))
    elif k == 'print':
        sim.say(op['s'])
    elif k == 'stream':
        if op['s'] == 'new':
            sim.streams.append(io.StringIO())
            sys.stdout = sim.streams[-1]
    elif k == 'folder':
        from pyfileconf import options
        options.set_option('log_folder', w.path('logs') if op['v'] else None)
    elif k == 'do':
        sim.events = 0
        sim.fault = op.get('fault')
        sim.log_fault, sim.log_count = op.get('log'), 0
        if op.get('io'):
            DISK.begin(op['io'])
        sim.hidden = 0
        stderr = sys.stderr
        sys.stderr = io.StringIO()
        try:
            o = w.call(sim.do, op['a'])
        finally:
            sys.stderr = stderr
            if op.get('io'):
                w.account_faults()
                DISK.begin(None)
            sim.fault = sim.log_fault = None
        if w.broken:
            raise w.broken
        w.log('  ->', 'ok' if o.ok else type(o.exc).__name__)
        sim.hidden = 0
        if sys.stdout is not current:
            raise Violation('stdout-not-given-back', f'after {op} which {"returned" if o.ok else "raised " + repr(o)}: '
                            f'{type(sys.stdout).__name__}')
