"""
Seams: everything below a run's scratch directory which the code under test reads or writes, the
clock, directory order and hash order go through here. Installed before pyfileconf is imported;
until a run activates the world, everything passes straight through to the real functions.
"""
import builtins
import errno
import io
import os
import posix
import sys
import time

# The real functions, for the harness itself
real_open = builtins.open
real = {}


class Crash(BaseException):
    """Raised only if a crash happens while no crash handler is installed (harness error)"""


class Disk:
    """Simulated faults on the disk below `root`. Every call is a numbered step."""

    def __init__(self):
        self.active = False
        self.root = ''
        self.step_no = 0
        self.write_no = 0
        self.trace = []          # (kind, relative path) per step of the current operation
        self.fault = None        # the planned fault of the current operation
        self.fired = []          # what was injected in the current operation
        self.on_crash = None
        self.escapes = []
        self.clock = None
        self.listing_salt = 0
        self.set_mtime = True
        self.on_step = None      # called at every step
        self.fds = {}            # file descriptors opened with os.open for writing

    # -- life cycle of an operation
    def begin(self, fault=None):
        self.step_no = 0
        self.write_no = 0
        self.trace = []
        self.fired = []
        self.fault = dict(fault) if fault else None

    def inside(self, path):
        return path == self.root or path.startswith(self.root + '/')

    def path_of(self, path):
        """absolute path if this is a path in the scratch directory which must be simulated, else None"""
        if not self.active or isinstance(path, int) or path is None:
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p if self.inside(p) else None

    def refuse_outside(self, path, what):
        """called for writes which are not in the scratch directory"""
        if not self.active or isinstance(path, int):
            return
        p = os.path.abspath(os.fsdecode(os.fspath(path)))
        if p.startswith('/dev/') and not p.startswith('/dev/shm/'):
            return
        self.escapes.append((what, p))
        raise PermissionError(errno.EACCES, 'simulator: refused write outside of the scratch directory', p)

    def step(self, kind, path, write, data_len=0):
        """
        One I/O step. Returns None, or for steps with data a number of bytes to write before failing.
        Raises OSError or crashes if the fault plan says so.
        """
        self.step_no += 1
        if write:
            self.write_no += 1
        rel = path[len(self.root) + 1:]
        self.trace.append((kind, rel, write))
        if self.on_step is not None:
            self.on_step(self.step_no)
        f = self.fault
        if f is None:
            return None
        n = self.write_no if f['among'] == 'w' else self.step_no
        if f['among'] == 'w' and not write:
            return None
        if f['among'] == 'r' and write:
            return None
        if f['among'] == 'r':
            n = self.step_no - self.write_no
        if n < f['at'] or n >= f['at'] + f.get('span', 1):
            return None
        when = f['when']
        self.fired.append((f['kind'], when, kind, rel))
        if when == 'before' or (when == 'mid' and not data_len):
            self._fail(f, path)
            return None
        if when == 'mid':
            return ('mid', int(f.get('frac', 0.5) * data_len))
        return ('after', None)

    def finish(self, mark, path):
        """second half of a step whose fault happens after the effect"""
        if mark is not None:
            self._fail(self.fault, path)

    def _fail(self, f, path):
        if f['kind'] == 'crash':
            self.active = False
            if self.on_crash is None:
                raise Crash()
            self.on_crash()
            raise Crash()   # not reached
        no = getattr(errno, f['kind'])
        raise OSError(no, os.strerror(no), path)


DISK = Disk()


class Clock:
    def __init__(self):
        self.active = False
        self.now = 1_700_000_000.0
        self.elapsed = 0.0

    def advance(self, dt):
        self.now += dt
        self.elapsed += abs(dt)


CLOCK = Clock()
DISK.clock = CLOCK


class SimFileIO(io.FileIO):
    """A file opened for writing below the scratch directory"""

    def __init__(self, sim_path, *args, **kwargs):
        self._sim_path = sim_path
        self._sim_closed = False
        super().__init__(*args, **kwargs)

    def write(self, b):
        if not DISK.active:
            return super().write(b)
        data = bytes(b)
        mark = DISK.step('write', self._sim_path, True, len(data))
        if mark is not None and mark[0] == 'mid':
            if mark[1]:
                super().write(data[:mark[1]])
                touch(self._sim_path)
            DISK.finish(mark, self._sim_path)
        n = super().write(data)
        touch(self._sim_path)
        DISK.finish(mark, self._sim_path)
        return n

    def truncate(self, *args):
        if DISK.active:
            mark = DISK.step('truncate', self._sim_path, True)
            r = super().truncate(*args)
            DISK.finish(mark, self._sim_path)
            return r
        return super().truncate(*args)

    def close(self):
        if self._sim_closed or self.closed:
            self._sim_closed = True
            return super().close()
        self._sim_closed = True
        if not DISK.active:
            return super().close()
        try:
            mark = DISK.step('close', self._sim_path, True)
        except OSError:
            super().close()
            raise
        super().close()
        DISK.finish(mark, self._sim_path)


def touch(path):
    """the modification time comes from the simulated clock"""
    if not (DISK.active and DISK.set_mtime):
        return
    try:
        st = posix.stat(path)
        import stat as stat_
        if stat_.S_ISREG(st.st_mode):
            ns = int(CLOCK.now * 10 ** 9)
            posix.utime(path, ns=(ns, ns))
    except OSError:
        pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if DISK.active and isinstance(file, int) and file in DISK.fds and any(c in mode for c in 'wax+'):
        return _writer(DISK.fds.pop(file), file, mode, buffering, encoding, errors, newline, closefd, None)
    if not DISK.active or isinstance(file, int):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    p = DISK.path_of(file)
    if p is None:
        if writing:
            DISK.refuse_outside(file, 'open ' + mode)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not writing:
        mark = DISK.step('open_r', p, False)
        f = real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        try:
            DISK.finish(mark, p)
        except OSError:
            f.close()
            raise
        return f
    return _writer(p, file, mode, buffering, encoding, errors, newline, closefd, opener)


def _writer(p, file, mode, buffering, encoding, errors, newline, closefd, opener):
    binary = 'b' in mode
    raw_mode = ''.join(c for c in mode if c not in 'bt')
    mark = DISK.step('open_w', p, True)
    changes = 'w' in raw_mode or not isinstance(file, int) and not os.path.exists(p)
    raw = SimFileIO(p, file, raw_mode, closefd, opener)
    if changes:
        touch(p)
    try:
        DISK.finish(mark, p)
    except OSError:
        super(SimFileIO, raw).close()
        raise
    if binary and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def _wrap_write(name, n_paths=1, touch_arg=None):
    fn = getattr(os, name)
    real[name] = fn

    def wrapper(*args, **kwargs):
        if not DISK.active:
            return fn(*args, **kwargs)
        paths = list(args[:n_paths])
        for key in ('path', 'src', 'dst', 'name'):
            if key in kwargs:
                paths.append(kwargs[key])
        p = None
        for a in paths:
            if isinstance(a, int):
                continue
            pp = DISK.path_of(a)
            if pp is None:
                DISK.refuse_outside(a, name)
            p = pp
        if p is None:
            return fn(*args, **kwargs)
        mark = DISK.step(name, p, True)
        r = fn(*args, **kwargs)
        if touch_arg is not None:
            touch(p)
        DISK.finish(mark, p)
        return r
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _order(names, path):
    salt = DISK.listing_salt
    if not salt:
        return sorted(names)
    import hashlib
    return sorted(names, key=lambda n: hashlib.md5(f'{salt}/{n}'.encode()).digest())


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def install():
    builtins.open = sim_open
    io.open = sim_open
    import _io
    _io.open = sim_open
    os_write = os.write

    def write(fd, data):
        p = DISK.fds.get(fd) if DISK.active else None
        if p is None:
            return os_write(fd, data)
        mark = DISK.step('os.write', p, True, len(data))
        if mark is not None and mark[0] == 'mid':
            if mark[1]:
                os_write(fd, data[:mark[1]])
            DISK.finish(mark, p)
        n = os_write(fd, data)
        touch(p)
        DISK.finish(mark, p)
        return n
    os.write = write
    for name in ('replace', 'rename', 'link', 'symlink'):
        _wrap_write(name, 2, touch_arg=None)
    for name in ('mkdir', 'remove', 'unlink', 'rmdir', 'chmod', 'truncate', 'utime'):
        _wrap_write(name, 1)

    os_open = os.open
    real['open'] = os_open

    def open_(path, flags, *args, **kwargs):
        if not DISK.active:
            return os_open(path, flags, *args, **kwargs)
        write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        p = DISK.path_of(path)
        if p is None:
            if write:
                DISK.refuse_outside(path, 'os.open')
            return os_open(path, flags, *args, **kwargs)
        mark = DISK.step('os.open', p, write)
        fd = os_open(path, flags, *args, **kwargs)
        DISK.fds.pop(fd, None)
        if write and (flags & os.O_TRUNC or flags & os.O_CREAT and posix.stat(fd).st_size == 0):
            touch(p)
        if write:
            DISK.fds[fd] = p
        DISK.finish(mark, p)
        return fd
    os.open = open_

    os_listdir, os_scandir = os.listdir, os.scandir
    real['listdir'], real['scandir'] = os_listdir, os_scandir

    def listdir(path='.'):
        p = DISK.path_of(path)
        if p is None:
            return os_listdir(path)
        mark = DISK.step('listdir', p, False)
        r = _order(os_listdir(path), p)
        DISK.finish(mark, p)
        return r
    os.listdir = listdir

    def scandir(path='.'):
        p = DISK.path_of(path)
        if p is None:
            return os_scandir(path)
        mark = DISK.step('scandir', p, False)
        with os_scandir(path) as it:
            entries = {e.name: e for e in it}
        DISK.finish(mark, p)
        return SimScandir([entries[n] for n in _order(entries, p)])
    os.scandir = scandir

    import shutil
    shutil._USE_CP_SENDFILE = False

    import importlib._bootstrap_external as be
    get_data = be.FileLoader.get_data

    def sim_get_data(self, path):
        p = DISK.path_of(path)
        if p is None:
            return get_data(self, path)
        mark = DISK.step('read_src', p, False)
        r = get_data(self, path)
        DISK.finish(mark, p)
        return r
    be.FileLoader.get_data = sim_get_data

    # clock
    r_time, r_time_ns = time.time, time.time_ns
    r_local, r_gm, r_strf, r_ctime = time.localtime, time.gmtime, time.strftime, time.ctime
    real['time'] = r_time
    time.time = lambda: CLOCK.now if CLOCK.active else r_time()
    time.time_ns = lambda: int(CLOCK.now * 10 ** 9) if CLOCK.active else r_time_ns()
    # (not functions: logging has localtime as the attribute of a class)
    time.localtime = staticmethod(lambda secs=None: r_local(CLOCK.now if secs is None and CLOCK.active else secs))
    time.gmtime = staticmethod(lambda secs=None: r_gm(CLOCK.now if secs is None and CLOCK.active else secs))
    time.ctime = lambda secs=None: r_ctime(CLOCK.now if secs is None and CLOCK.active else secs)

    def strftime(fmt, t=None):
        if t is None:
            t = time.localtime()
        return r_strf(fmt, t)
    time.strftime = strftime
    r_sleep = time.sleep

    def sleep(s):
        if CLOCK.active:
            CLOCK.advance(s)
        else:
            r_sleep(s)
    time.sleep = sleep


def salt_section_paths(salt):
    """vary the order of every set of section paths"""
    if not salt:
        return
    from pyfileconf.sectionpath.sectionpath import SectionPath
    orig = SectionPath.__hash__
    if orig is None:
        return
    mult = (salt * 2 + 1) & 0xFFFFFFFF

    def salted(self):
        return (orig(self) * mult + salt) & 0x1FFFFFFFFFFFFFFF
    SectionPath.__hash__ = salted
