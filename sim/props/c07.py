"""C07: log files follow the options through every change, failure and reset"""
import gc
import logging
import logging.handlers
import os
import re
import time

from ..seams import DISK, CLOCK
from ..world import Violation, HarnessError, raise_fault
from . import proj as P

RUNS = {'quick': 2500, 'thorough': 150000}
WALL = {'quick': 120, 'thorough': 800}
RULE = ('a case is 6-30 operations: options set by call, by value, by assignment, several at once, in (nested) contexts '
        'left normally or by an exception, reset one by one or all; records logged directly, through child loggers and by '
        'runs with captured output; the clock moved by seconds to weeks; restarts; disk errors at seeded I/O steps of the '
        'log folder, unusable folders and invalid values; handlers of the user on the same logger; non-trivial: a record '
        'was written to a log file')
STATES = 'hash of (options, names of the log files and the number of records in each) after each operation'
ASSUMPTIONS = ['when a log file is rolled over, what the rolled over file is called and which are pruned is what '
               'logging.handlers.TimedRotatingFileHandler documents for the frequency and count',
               'a record being logged when the disk fails may be lost or written again',
               'after a disk error while logging, rollover times are only predicted again once the log folder was changed']
STUBS = 'clock; faults at the open/os seam; user functions; process restart by ending a forked process'
FOLDERS = ['logs', 'logs2', 'deep/er/logs', 'occupied', 'occupied/sub']
FREQS = ['S', 'M', 'H', 'D', 'midnight', 'W0', 'h', 's', 'W6']
BAD_FREQ = ['X', 'W7', 'W', '']
KEEPS = [0, 1, 2, 3]
DEFAULTS = {'log_stdout': False, 'log_folder': None, 'log_file_rollover_freq': 'D', 'log_file_num_keep': 0}
STEPS = [0.3, 0.9, 1, 1, 2, 5, 30, 59, 60, 61, 600, 3500, 3600, 7300, 40000, 86400, 90000, 200000, 604800, 700000]


def gen_value(rng, attr, calm=False):
    if attr == 'log_stdout':
        return rng.random() < 0.6
    if attr == 'log_folder':
        return rng.choice([None] + FOLDERS[:3] * 2 + ([] if calm else FOLDERS[3:]))
    if attr == 'log_file_rollover_freq':
        return rng.choice(FREQS if calm or rng.random() < 0.9 else BAD_FREQ)
    return rng.choice(KEEPS)


def gen_set(rng):
    attrs = list(DEFAULTS)
    k = rng.random()
    weights = [attrs[0], attrs[1], attrs[1], attrs[1], attrs[2], attrs[2], attrs[3], attrs[3]]
    if k < 0.75:
        a = rng.choice(weights)
        return {'op': 'set', 'how': rng.choice(['call', 'value', 'assign', 'many']), 'values': [[a, gen_value(rng, a)]]}
    vals = [[a, gen_value(rng, a)] for a in rng.sample(attrs, rng.randint(2, 4))]
    return {'op': 'set', 'how': 'many', 'values': vals}


def gen_log(rng):
    return {'op': 'log', 'n': rng.choice([1, 1, 2, 3]), 'how': rng.choice(['direct', 'direct', 'child', 'run', 'print', 'exc', 'debug'])}


def gen_op(rng, depth):
    k = rng.random()
    if k < 0.28:
        op = gen_set(rng)
    elif k < 0.55:
        op = gen_log(rng)
    elif k < 0.70:
        return {'op': 'clock', 'dt': rng.choice(STEPS)}
    elif k < 0.78:
        op = {'op': 'reset', 'how': rng.choice(['all', 'one', 'some', 'option'])}
        if op['how'] != 'all':
            op['attrs'] = rng.sample(list(DEFAULTS), 1 if op['how'] != 'some' else rng.randint(1, 4))
    elif k < 0.82:
        return {'op': 'handler', 'kind': rng.choice(['memory', 'file', 'timed', 'remove'])}
    elif k < 0.85 and depth == 0:
        return {'op': 'restart'}
    elif k < 0.88:
        return {'op': 'level', 'v': rng.choice([20, 20, 30])}
    elif k < 0.90:
        return {'op': 'burst', 'n': rng.randint(3, 12), 'dt': rng.choice([0.4, 1, 60, 3600, 86400])}
    elif depth < 3:
        op = {'op': 'with', 'enter': rng.choice([None, gen_set(rng), gen_set(rng)]),
              'body': [gen_op(rng, depth + 1) for _ in range(rng.randint(1, 4))],
              'exc': rng.choice([None, None, 'error', 'kbi', 'exit', 'genexit', 'oserror'])}
        return op
    else:
        op = gen_log(rng)
    if rng.random() < 0.12:
        op['io'] = {'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EMFILE']), 'among': 'any',
                    'at': rng.randint(1, 5), 'when': rng.choice(['before', 'before', 'after', 'mid']),
                    'frac': rng.choice([0.0, 0.5]), 'span': rng.choice([1, 1, 3, 1000])}
    return op


def gen(rng, tier):
    ops = []
    if rng.random() < 0.8:
        ops.append({'op': 'set', 'how': 'call', 'values': [['log_folder', rng.choice(FOLDERS[:3])]]})
    theme = rng.random()
    if theme < 0.4:
        ops.append({'op': 'set', 'how': 'call', 'values': [['log_file_rollover_freq', rng.choice(FREQS)]]})
        ops.append({'op': 'set', 'how': 'call', 'values': [['log_file_num_keep', rng.choice(KEEPS)]]})
    for _ in range(rng.randint(6, 30 if tier == 'thorough' else 18)):
        ops.append(gen_op(rng, 0))
        if theme < 0.4 and rng.random() < 0.6:
            ops.append({'op': 'clock', 'dt': rng.choice(STEPS)})
            ops.append(gen_log(rng))
    return {'ops': ops, 'start': rng.choice([0, 0.5, 3599.2, 86399.0, rng.randrange(10 ** 7)])}


def minimise_ops(case):
    return [('ops',)]


class Model:
    """the log files of one folder each"""

    def __init__(self, w):
        self.w = w
        self.opts = dict(DEFAULTS)
        self.files = {}          # relative path -> tokens
        self.mtime = {}
        self.open = None         # stdlib handler without a file, for the documented arithmetic
        self.maybe = set()
        self.loose = False       # a disk error hit the log: file names are not predicted now
        self.last = None

    def base(self):
        return self.opts['log_folder'] + '/pyfileconf.log'

    def recreate(self):
        if self.opts['log_folder'] is None:
            self.open = None
            return
        h = logging.handlers.TimedRotatingFileHandler('/nonexistent/pyfileconf.log', when=self.opts['log_file_rollover_freq'],
                                                      backupCount=self.opts['log_file_num_keep'], delay=True)
        b = self.base()
        if b not in self.files:
            self.files[b] = []
            self.mtime[b] = CLOCK.now
        h.rolloverAt = h.computeRollover(int(self.mtime[b]))
        self.open = h

    def emit(self, token):
        if self.open is None:
            return
        self.w.count('nontrivial')
        h, b = self.open, self.base()
        t = int(CLOCK.now)
        if t >= h.rolloverAt:
            name = b + '.' + time.strftime(h.suffix, time.localtime(h.rolloverAt - h.interval))
            if name not in self.files:
                self.w.count('check:rollover')
                self.files[name] = self.files.pop(b)
                if h.backupCount > 0:
                    old = sorted(f for f in self.files if f.startswith(b + '.') and
                                 h.extMatch.fullmatch(f[len(b) + 1:]))
                    for f in old[:max(0, len(old) - h.backupCount)]:
                        self.w.count('check:pruned')
                        del self.files[f]
                self.files[b] = []
                h.rolloverAt = h.computeRollover(t)
        self.files[b].append(token)
        self.mtime[b] = CLOCK.now


class Memory(logging.Handler):
    def __init__(self):
        super().__init__()
        self.tokens = []

    def emit(self, record):
        self.tokens.extend(re.findall(r'<L\d+>', record.getMessage()))


class Sim:
    def __init__(self, w):
        self.w = w
        self.m = Model(w)
        self.n = w.state.get('n', 0)
        self.logger = logging.getLogger('pyfileconf')
        self.mem = Memory()
        self.logger.addHandler(self.mem)
        self.expected = []
        self.user_handlers = []
        self.faulted = False

    # -- observing the files
    def log_files(self):
        out = {}
        was, DISK.active = DISK.active, False
        try:
            for d, dirs, files in os.walk(self.w.root):
                dirs[:] = sorted(x for x in dirs if x not in ('src', 'user', '__pycache__', 'proj'))
                for fn in sorted(files):
                    p = os.path.join(d, fn)
                    with open(p, encoding='utf-8', errors='replace') as f:
                        out[os.path.relpath(p, self.w.root)] = re.findall(r'<L\d+>', f.read())
        finally:
            DISK.active = was
        out.pop('occupied', None)
        return out

    def open_files(self):
        out = []
        for fd in os.listdir('/proc/self/fd'):
            try:
                p = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if p.startswith(self.w.root + '/') and not p.startswith(self.w.path('user') + '/'):
                out.append(os.path.relpath(p, self.w.root))
        return sorted(out)

    def check(self, what):
        from pyfileconf import options
        m = self.m
        for attr, v in m.opts.items():
            got = getattr(options, attr).value
            got = self.rel(got) if attr == 'log_folder' else got
            if got != v:
                raise Violation('wrong-option', f'{what}: {attr} is {got!r}, expected {v!r}')
        if [t for t in self.mem.tokens if t not in m.maybe] != [t for t in self.expected if t not in m.maybe]:
            raise Violation('logging-elsewhere', f'{what}: a handler of the user got {self.mem.tokens[-5:]}, expected '
                            f'{self.expected[-5:]}')
        for h in self.user_handlers:
            if h not in self.logger.handlers:
                raise Violation('removed-handler', f'{what}: {type(h).__name__} of the user is not there any more')
        files = self.log_files()
        gc.collect()
        openf = self.open_files()
        want = [m.base()] if m.opts['log_folder'] is not None else []
        if openf != want:
            # a log file which could not be opened again after a disk error is opened with the next record
            if not (m.loose and openf == []):
                raise Violation('open-files', f'{what}: open log files are {openf}, expected {want}')
        if m.loose:
            flat = [t for f in files.values() for t in f if t not in m.maybe]
            dup = sorted({t for t in flat if flat.count(t) > 1})
            if dup:
                raise Violation('log-files', f'{what}: {dup[:5]} is more than once in {files}')
            if m.last and m.open and m.last not in files.get(m.base(), ()):
                raise Violation('log-files', f'{what}: {m.last} is not in {m.base()}: {files}')
        else:
            got = {f: [t for t in v if t not in m.maybe] for f, v in files.items()}
            exp = {f: [t for t in v if t not in m.maybe] for f, v in m.files.items()}
            if got != exp:
                diff = {f: (got.get(f), exp.get(f)) for f in sorted(set(got) | set(exp)) if got.get(f) != exp.get(f)}
                raise Violation('log-files', f'{what}: {{file: (records in it, expected)}} {diff}')
        self.w.count('check:files')
        self.w.note_state((sorted(m.opts.items(), key=str), [(f, len(v)) for f, v in sorted(files.items())]))

    def rel(self, v):
        return os.path.relpath(os.fspath(v), self.w.root) if v is not None else None

    def resync(self):
        """after a disk error: what is on the disk now"""
        m = self.m
        m.files = self.log_files()
        m.mtime = {}
        for f in m.files:
            m.mtime[f] = os.stat(self.w.path(f)).st_mtime

    # -- operations
    def set_one(self, attr, v):
        """what setting does. Returns whether it must fail"""
        m = self.m
        was = m.opts[attr]
        if v == was:
            return False
        m.opts[attr] = v
        if attr == 'log_stdout' or m.opts['log_folder'] is None and attr != 'log_folder':
            return False
        if attr == 'log_folder' and v is not None and v.startswith('occupied') or \
                m.opts['log_folder'] is not None and m.opts['log_file_rollover_freq'] in BAD_FREQ:
            self.side_effects = True
            m.opts[attr] = was
            return True
        if m.loose and attr == 'log_folder' and v is not None:
            self.resync()
            m.loose = False
        m.last = None
        m.recreate()
        return False

    def set_many(self, values):
        for attr, v in values:
            if self.set_one(attr, v):
                return True
        return False

    def guarded(self, op, fn, model):
        """an operation which sets options, maybe with a disk error; returns its outcome"""
        io = op.get('io')
        before = dict(self.m.opts)
        if io:
            DISK.begin(io)
        try:
            o = self.w.call(fn)
        finally:
            fired = bool(DISK.fired)
            if io:
                self.w.account_faults()
                DISK.begin(None)
        if fired:
            return o, self.settle(op, before, o)
        self.side_effects = False
        must_fail = model()
        if must_fail and o.ok:
            raise Violation('error-not-reported', f'{op} did not raise')
        if not must_fail and not o.ok:
            raise Violation('unexpected-exception:' + type(o.exc).__name__, f'{op} raised {o!r}')
        if self.side_effects:
            # a folder or an empty file may have been created
            files = self.log_files()
            for f, toks in files.items():
                if f not in self.m.files and not toks:
                    self.m.files[f] = []
                    self.m.mtime[f] = os.stat(self.w.path(f)).st_mtime
        return o, must_fail

    def settle(self, op, before, o):
        """options were being set when the disk failed: the options tell what should be now"""
        from pyfileconf import options
        m = self.m
        self.faulted = True
        wanted = {a: v for a, v in op['values']} if op['op'] == 'set' else \
            {a: DEFAULTS[a] for a in op.get('attrs', DEFAULTS)}
        for attr in DEFAULTS:
            got = getattr(options, attr).value
            got = self.rel(got) if attr == 'log_folder' else got
            if got != before[attr] and got != wanted.get(attr, before[attr]):
                raise Violation('wrong-option', f'{attr} is {got!r} after {op}, was {before[attr]!r}')
            if o.ok and got != wanted.get(attr, before[attr]):
                raise Violation('error-not-reported', f'{op} did not raise but {attr} is {got!r}')
            m.opts[attr] = got
        if m.opts != before or o.ok or not m.loose:
            self.resync()
            m.recreate()
            m.last = None
        # the handler may have been created with the times before or during the operation
        m.loose = True
        return not o.ok

    def set(self, op):
        from pyfileconf import options
        import pyfileconf
        vals = []
        for a, v in op['values']:
            if a == 'log_folder' and v is not None:
                v = self.w.path(v)
                if v.endswith('logs2'):
                    import pathlib
                    v = pathlib.Path(v)
            vals.append((a, v))
        how = op['how']
        if how == 'call':
            return lambda: options.set_option(*vals[0])
        if how == 'value':
            return lambda: setattr(getattr(options, vals[0][0]), 'value', vals[0][1])
        if how == 'assign':
            return lambda: setattr(pyfileconf.options, vals[0][0], vals[0][1])
        return lambda: options.set_options(vals)

    def token(self):
        self.n += 1
        t = f'<L{self.n}>'
        return t

    def say(self, op):
        """logs records. Each is expected where the options say"""
        lg = self.logger
        n = op['n']
        how = op['how']
        m = self.m
        if how in ('run', 'print'):
            if how == 'print' and not m.opts['log_stdout']:
                how = 'run'
            toks = [self.token() for _ in range(n)]
            self.now = (how, toks)
            seen = len(self.mem.tokens)
            o = self.w.call(self.pm.run, 's.f')
            if not o.ok and not DISK.fired:
                raise Violation('unexpected-exception:' + type(o.exc).__name__, f'run raised {o!r}')
            self.arrived(toks, seen)
            return
        for _ in range(n):
            t = self.token()
            seen = len(self.mem.tokens)
            if how == 'direct':
                self.w.call(lg.info if lg.level <= 20 else lg.warning, 'record %s', t)
            elif how == 'child':
                self.w.call(logging.getLogger('pyfileconf.user.child').error, f'record\n{t}')
            elif how == 'debug':
                level = lg.level
                lg.setLevel(10)
                self.w.call(lg.debug, 'record ' + t)
                lg.setLevel(level)
            else:
                try:
                    raise ValueError('some error')
                except ValueError:
                    self.w.call(lg.exception, t)
            self.arrived([t], seen)

    def arrived(self, toks, seen):
        # what passes the level is the user's business: the user's handler shows what was logged
        m = self.m
        got = self.mem.tokens[seen:]
        if self.logger.level > 20 and self.now and self.now[1] == toks:
            toks = [t for t in toks if t in got]
        self.expected.extend(toks)
        hit = bool(DISK.fired)
        if hit:
            self.faulted = True
            m.maybe.update(toks)
            m.loose = True
            m.last = None
        for t in toks:
            if not m.loose:
                m.emit(t)
            elif not hit and m.open is not None:
                m.last = t

    def setup(self):
        from pyfileconf import PipelineManager
        self.w.hook = self.user
        self.pm = PipelineManager(self.w.path('proj'), name='pm')
        self.pm.load()

    def user(self, site, args):
        how, toks = self.now
        for t in toks:
            if how == 'print':
                print('printed', t)
            else:
                self.logger.info('from the run ' + t)
        return 1

    def step(self, op):
        from pyfileconf import options
        k = op['op']
        self.w.count('op:' + k)
        self.now = None
        if k == 'set':
            self.guarded(op, self.set(op), lambda: self.set_many(op['values']))
        elif k == 'reset':
            self.reset(op)
        elif k == 'log':
            if op.get('io') and op['how'] not in ('run', 'print'):
                DISK.begin(op['io'])
            import sys, io
            stderr, sys.stderr = sys.stderr, io.StringIO()
            try:
                self.say(op)
            finally:
                sys.stderr = stderr
                if op.get('io'):
                    self.w.account_faults()
                    DISK.begin(None)
        elif k == 'burst':
            for _ in range(op['n']):
                self.say({'n': 1, 'how': 'direct'})
                CLOCK.advance(op['dt'])
        elif k == 'clock':
            CLOCK.advance(op['dt'])
        elif k == 'level':
            self.logger.setLevel(op['v'])
        elif k == 'handler':
            self.handler(op['kind'])
        elif k == 'with':
            self.context(op)
        else:
            raise HarnessError(k)

    def reset(self, op):
        from pyfileconf import options
        attrs = op.get('attrs') or list(DEFAULTS)
        fn = {'all': options.reset, 'one': lambda: options.reset_option(attrs[0]), 'some': lambda:
              options.reset_options(attrs), 'option': lambda: getattr(options, attrs[0]).reset()}[op['how']]
        self.guarded(op, fn, lambda: self.set_many([(a, DEFAULTS[a]) for a in attrs]))

    def context(self, op):
        from pyfileconf import options
        body_exc = []

        class Leave(Exception):
            pass

        def go():
            if op['enter'] is None:
                cm = options
            else:
                o, failed = self.guarded(op['enter'], self.set(op['enter']), lambda: self.set_many(op['enter']['values']))
                if failed:
                    raise Leave()
                cm = o.value if op['enter']['how'] in ('call', 'many') else options
            with cm:
                for b in op['body']:
                    if b['op'] == 'restart':
                        continue
                    self.w.log('    ', b)
                    self.step(b)
                    self.check(f'after {b} in a context')
                if op['exc']:
                    raise_fault(op['exc'], 'context')
        try:
            go()
        except (Violation, HarnessError, Leave) as e:
            if not isinstance(e, Leave):
                raise
            return
        except BaseException as e:
            body_exc.append(e)
        if bool(body_exc) != bool(op['exc']):
            raise Violation('context', f'{op}: the exception which left the context is {body_exc}')
        self.set_many([(a, DEFAULTS[a]) for a in DEFAULTS])

    def handler(self, kind):
        if kind == 'remove':
            if self.user_handlers:
                h = self.user_handlers.pop()
                self.logger.removeHandler(h)
                h.close()
            return
        if len(self.user_handlers) > 3:
            return
        self.n_h = getattr(self, 'n_h', 0) + 1
        p = self.w.path(f'user/h{self.n_h}.log')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        h = {'memory': Memory, 'file': lambda: logging.FileHandler(p), 'timed': lambda:
             logging.handlers.TimedRotatingFileHandler(p, when='D')}[kind]()
        self.logger.addHandler(h)
        self.user_handlers.append(h)


def run(w):
    import sys, io
    if w.state.get('ops_done') is None:
        CLOCK.now += w.case['start']
        w.state['ops_done'] = 0
        w.write('occupied', 'a file')
        w.write('src/simmod.py', 'import simrt\n\n\ndef f(a=None):\n    return simrt.ev("f", a=a)\n')
        w.write('proj/pipeline_dict.py', 'from simmod import f\n\npipeline_dict = {"s": [f]}\n')
    sys.stdout = io.StringIO()
    sim = Sim(w)
    w.must('loading', sim.setup)
    m = sim.m
    if 'maybe' in w.state:
        m.maybe = w.state['maybe']
    m.files = w.state.get('files', {})
    m.mtime = w.state.get('mtime', {})
    ops = w.case['ops']
    while w.state['ops_done'] < len(ops):
        op = ops[w.state['ops_done']]
        w.state['ops_done'] += 1
        w.log(w.state['ops_done'] - 1, op)
        if op['op'] == 'restart':
            if m.loose:
                sim.resync()
            w.state.update(n=sim.n, files=m.files, mtime=m.mtime, maybe=m.maybe, now=CLOCK.now)
            w.restart()
        sim.step(op)
        sim.check(f'after {op}')
    # whatever happened, resetting works
    w.log('final reset')
    sim.logger.setLevel(20)
    sim.step({'op': 'reset', 'how': 'all'})
    sim.check('after the final reset')
    sim.step({'op': 'set', 'how': 'call', 'values': [['log_folder', 'last']]})
    sim.step({'op': 'log', 'n': 1, 'how': 'child'})
    sim.check('after setting a new folder at the end')
