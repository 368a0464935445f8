"""The world of one incarnation (one simulated process) of a run."""
import bdb
import gc
import hashlib
import os
import pickle
import shutil
import sys
import time
import traceback
import types

from . import seams
from .seams import DISK, CLOCK


class Violation(Exception):
    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = str(detail)


NONE = object()     # what a hook gives for user code which returns None


class HarnessError(Exception):
    pass


class UserError(Exception):
    """raised by the code of the generated projects"""


class OtherUserError(ValueError):
    pass


class Outcome:
    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.ok:
            return f'ok({short(self.value)})'
        return f'{type(self.exc).__name__}({short(str(self.exc), 160)})'


def short(x, n=120):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def where(exc):
    """type and innermost function of an exception, to tell causes apart"""
    tb = exc.__traceback__
    name = ''
    while tb is not None:
        name = tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return f'{type(exc).__name__}:{name}'


class World:
    current = None

    def __init__(self, root, case, state, carried, send):
        self.root = root
        self.case = case
        self.state = state
        self.carried = carried
        self.trace = carried['trace']
        self.stats = carried['stats']
        self.states = carried['states']
        self._send = send
        self.events = []
        self.user_faults = {}
        self.user_counts = {}
        self.hook = None
        World.current = self

    # -- recording
    def log(self, *parts):
        self.trace.append(' '.join(str(p) for p in parts))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def note_state(self, obj):
        h = hashlib.md5(repr(obj).encode()).hexdigest()[:12]
        self.states.append(h)

    # -- files (outside of the simulated disk's faults)
    def path(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, text, mtime=None):
        p = self.path(rel)
        d = os.path.dirname(p)
        was, DISK.active = DISK.active, False
        try:
            os.makedirs(d, exist_ok=True)
            with seams.real_open(p, 'w', newline='') as f:
                f.write(text)
            t = CLOCK.now if mtime is None else mtime
            os.utime(p, ns=(int(t * 10 ** 9), int(t * 10 ** 9)))
        finally:
            DISK.active = was

    def read(self, rel):
        try:
            with seams.real_open(self.path(rel), 'r', newline='') as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError):
            return None

    def remove(self, rel):
        was, DISK.active = DISK.active, False
        try:
            os.remove(self.path(rel))
        finally:
            DISK.active = was

    def snapshot(self, rel, hidden=False):
        """{relative path: content} of the files below a folder, without bytecode"""
        out = {}
        was, DISK.active = DISK.active, False
        try:
            base = self.path(rel)
            for d, dirs, files in os.walk(base):
                dirs[:] = [x for x in dirs if x != '__pycache__']
                for fn in files:
                    if not hidden and (fn.startswith('.') or not fn.endswith('.py')):
                        continue
                    p = os.path.join(d, fn)
                    with seams.real_open(p, 'r', newline='') as f:
                        out[os.path.relpath(p, base)] = f.read()
        finally:
            DISK.active = was
        return dict(sorted(out.items()))

    def dirs(self, rel):
        out = []
        was, DISK.active = DISK.active, False
        try:
            base = self.path(rel)
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x != '__pycache__')
                out.extend(os.path.relpath(os.path.join(d, x), base) for x in dirs)
        finally:
            DISK.active = was
        return sorted(out)

    # -- calls into the code under test
    def call(self, fn, *args, **kwargs):
        try:
            return Outcome(fn(*args, **kwargs))
        except Violation:
            raise
        except HarnessError:
            raise
        except seams.Crash:
            raise HarnessError('crash without handler')
        except BaseException as e:
            return Outcome(exc=e)

    def must(self, what, fn, *args, **kwargs):
        """call which has to succeed"""
        o = self.call(fn, *args, **kwargs)
        if not o.ok:
            tb = ''.join(traceback.format_exception(o.exc))[-1500:]
            raise Violation('unexpected-exception:' + where(o.exc), f'{what} raised {o!r}\n{tb}')
        return o.value

    # -- process control
    def crash(self):
        self.log('CRASH')
        self.count('fault:crash')
        for f in DISK.fired:
            self.log('  at', *f)
        self._send({'status': 'crash', 'state': self.state, 'carried': self.carried})
        os._exit(0)

    def restart(self):
        self.log('RESTART')
        self.count('op:restart')
        self._send({'status': 'restart', 'state': self.state, 'carried': self.carried})
        os._exit(0)

    def account_faults(self):
        """count what was injected by the disk in the operation which just ended"""
        for kind, when, step, rel in DISK.fired:
            self.log('  fault', kind, when, step, rel)
            self.count(f'fault:{kind}:{when}:{step}')

    # -- user code
    def user_call(self, site, args):
        n = self.user_counts.get(site, 0)
        self.user_counts[site] = n + 1
        self.events.append((site, args))
        do = self.user_faults.get((site, n)) or self.user_faults.get((site, '*'))
        if do is not None:
            self.count(f'fault:user:{do}')
            self.log('  user fault', do, 'in', site)
            raise_fault(do, site)
        if self.hook is not None:
            r = self.hook(site, args)
            if r is not None:
                return None if r is NONE else r
        return (site, tuple(sorted(args.items(), key=lambda kv: kv[0])))

    def set_user_faults(self, faults=()):
        self.user_counts = {}
        self.user_faults = {(f['site'], f.get('n', '*')): f['do'] for f in faults}


def raise_fault(do, site):
    if do == 'error':
        raise UserError(site)
    if do == 'value':
        raise OtherUserError(site)
    if do == 'kbi':
        raise KeyboardInterrupt(site)
    if do == 'exit':
        raise SystemExit(site)
    if do == 'quit':
        raise bdb.BdbQuit(site)
    if do == 'oserror':
        raise OSError(5, 'user I/O error', site)
    if do == 'stopiter':
        raise StopIteration(site)
    if do == 'recursion':
        raise RecursionError(site)
    if do == 'genexit':
        raise GeneratorExit(site)
    if do == 'assert':
        raise AssertionError(site)
    if do == 'attr':
        raise AttributeError(site)
    if do == 'key':
        raise KeyError(site)
    if do == 'memory':
        raise MemoryError(site)
    raise HarnessError(f'unknown user fault {do}')


def make_simrt():
    """the module which the code of the generated projects calls"""
    m = types.ModuleType('simrt')

    def ev(site, **args):
        return World.current.user_call(site, args)

    def cfg(site):
        World.current.user_call('cfg:' + site, {})

    def cfgv(path):
        return World.current.user_call('cfgv:' + path, {})

    def out(text):
        print(text)
    m.cfgv = cfgv
    m.ev = ev
    m.cfg = cfg
    m.out = out
    m.UserError = UserError
    m.__file__ = os.path.join(os.path.dirname(__file__), 'world.py')
    sys.modules['simrt'] = m


# ---------------------------------------------------------------- running cases

def _rm(path):
    shutil.rmtree(path, ignore_errors=True)


def _incarnation(prop, case, root, state, carried, wfd):
    def send(msg):
        data = pickle.dumps(msg)
        view = memoryview(len(data).to_bytes(8, 'little') + data)
        while view:
            n = os.write(wfd, view)
            view = view[n:]

    gc.disable()
    import random
    random.seed(case.get('rt_seed', 0))
    import tempfile
    tempfile._name_sequence = _Names()
    try:
        w = World(root, case, state, carried, send)
        DISK.root = root
        DISK.on_crash = w.crash
        DISK.listing_salt = case.get('listing_salt', 0)
        DISK.begin(None)
        CLOCK.now = state.setdefault('now', CLOCK.now)
        seams.salt_section_paths(case.get('hash_salt', 0))
        os.chdir(root)
        src = os.path.join(root, 'src')
        os.makedirs(src, exist_ok=True)
        sys.path.insert(0, src)
        CLOCK.active = True
        DISK.active = True
        status, violation = 'end', None
        try:
            prop.run(w)
            if DISK.escapes:
                raise Violation('write-outside-scratch', DISK.escapes[:3])
        except Violation as v:
            violation = {'kind': v.kind, 'detail': v.detail}
        except HarnessError as e:
            status, violation = 'harness', {'kind': 'harness', 'detail': traceback.format_exc()[-3000:]}
        except BaseException as e:
            violation = {'kind': 'unexpected-exception:' + type(e).__name__,
                         'detail': traceback.format_exc()[-3000:]}
        DISK.active = False
        carried['simtime'] += CLOCK.elapsed
        send({'status': status, 'violation': violation, 'state': {}, 'carried': carried})
    except BaseException:
        DISK.active = False
        try:
            send({'status': 'harness', 'violation': {'kind': 'harness', 'detail': traceback.format_exc()[-3000:]},
                  'state': {}, 'carried': carried})
        except BaseException:
            pass
    finally:
        os._exit(0)


class _Names:
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return f'sim{self.n}'


def run_case(prop, case, base, timeout=60.0, max_incarnations=40):
    """Executes a case in forked processes. Returns a JSON-able result"""
    import select
    import signal
    root = os.path.join(base, 'r')
    _rm(root)
    os.makedirs(root)
    carried = {'trace': [], 'stats': {}, 'states': [], 'simtime': 0.0}
    state = {'incarnation': 0}
    result = None
    try:
        for inc in range(max_incarnations):
            state['incarnation'] = inc
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                _incarnation(prop, case, root, state, carried, wfd)
            os.close(wfd)
            buf = b''
            deadline = seams.real['time']() + timeout
            need = None
            timed_out = False
            while True:
                left = deadline - seams.real['time']()
                if left <= 0:
                    timed_out = True
                    break
                r, _, _ = select.select([rfd], [], [], left)
                if not r:
                    continue
                chunk = os.read(rfd, 1 << 16)
                if not chunk:
                    break
                buf += chunk
            if timed_out:
                os.kill(pid, signal.SIGKILL)
            os.close(rfd)
            os.waitpid(pid, 0)
            if timed_out:
                result = {'status': 'timeout', 'violation': {'kind': 'no-progress',
                          'detail': f'an operation did not finish within {timeout} s'}}
                break
            if len(buf) < 8 or len(buf) < 8 + int.from_bytes(buf[:8], 'little'):
                result = {'status': 'died', 'violation': {'kind': 'process-died',
                          'detail': 'the simulated process died without a report'}}
                break
            msg = pickle.loads(buf[8:])
            carried = msg['carried']
            if msg['status'] in ('crash', 'restart'):
                state = msg['state']
                continue
            result = {'status': msg['status'], 'violation': msg['violation']}
            break
        else:
            result = {'status': 'harness', 'violation': {'kind': 'harness', 'detail': 'too many incarnations'}}
    finally:
        _rm(root)
    if result['violation'] is not None and result['status'] == 'end':
        result['status'] = 'violation'
    elif result['status'] == 'end':
        result['status'] = 'ok'
    if result['status'] in ('timeout', 'died'):
        result['status'] = 'violation'
        result['slow'] = True
    tr = '\n'.join(carried['trace'])
    result['trace_hash'] = hashlib.md5(tr.replace(root, '<root>').encode()).hexdigest()[:16]
    result['trace'] = [t.replace(root, '<root>') for t in carried['trace']]
    result['stats'] = carried['stats']
    result['states'] = carried['states']
    result['simtime'] = carried['simtime']
    if result['violation']:
        result['violation']['detail'] = result['violation']['detail'].replace(root, '<root>')
    return result
