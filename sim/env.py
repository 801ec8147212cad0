"""The simulated process: loads the library from /repo (Python sources as they are, compiled parts instrumented), and
puts every source of nondeterminism behind libsim.so (scheduler, OpenMP runtime, allocator, disk) or behind the hooks
of this module (line events, locks, clocks, randomness, NumPy allocation).
"""
import ctypes
import errno
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import sys
import threading

BUILD_DIR = os.environ.get('PANELS_SIM_DIR', '')
REPO = os.environ.get('PANELS_SIM_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'panels') + os.sep
TRACE_FILES = (PKG,)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, build):
        self.build = build
        with open(os.path.join(build, 'info.json')) as f:
            self.ext = set(json.load(f)['ext'])

    def find_spec(self, name, path=None, target=None):
        if name in self.ext:
            p = os.path.join(self.build, 'ext', name + '.so')
            return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        if name == 'panels.version' and not os.path.exists(os.path.join(REPO, 'panels', 'version.py')):
            return importlib.util.spec_from_file_location(name, os.path.join(self.build, 'src', 'panels', 'version.py'))
        return None


_LIB = None


class Ev(ctypes.Structure):
    _fields_ = [('frm', ctypes.c_int32), ('to', ctypes.c_int32), ('pts', ctypes.c_uint64), ('kind', ctypes.c_int32), ('pad', ctypes.c_int32)]


class DFault(ctypes.Structure):
    _fields_ = [('at', ctypes.c_int64), ('kind', ctypes.c_int32), ('err', ctypes.c_int32), ('arg', ctypes.c_int64),
                ('opmask', ctypes.c_int32), ('fired', ctypes.c_int32)]


class HarnessError(Exception):
    """The simulation itself failed; says nothing about the library."""


C = None    # releases the GIL around calls
P = None    # keeps the GIL


def install(build=None):
    """Sets up the import seam and imports the library."""
    global C, P, BUILD_DIR
    BUILD_DIR = build or BUILD_DIR
    so = os.path.join(BUILD_DIR, 'libsim.so')
    C = ctypes.CDLL(so)
    P = ctypes.PyDLL(so)
    C.sim_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_double, ctypes.c_int, ctypes.c_uint64,
                            ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
    C.sim_begin.restype = None
    C.sim_heap.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int64]
    C.sim_disk.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_uint64, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
    C.sim_disk_faults.argtypes = [ctypes.c_void_p, ctypes.c_int]
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(BUILD_DIR))
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')
    import numpy  # noqa
    import scipy.sparse.linalg  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    import panels  # noqa
    import panels.shell, panels.multidomain.multidomain, panels.stiffpanelbay.stiffpanelbay  # noqa
    p = os.path.realpath(panels.__file__)
    if not p.startswith(PKG):
        raise HarnessError('panels was imported from %s' % p)
    import panels.models.clpt_bardell_field as cf
    if not os.path.realpath(cf.__file__).startswith(os.path.realpath(BUILD_DIR)):
        raise HarnessError('compiled parts were imported from %s' % cf.__file__)
    _ranges()
    _hook_lines()
    import gc
    gc.collect()
    gc.freeze()   # the library collects garbage after every operation; what was imported is not garbage


def _ranges():
    pairs = []
    ext = os.path.join(os.path.realpath(BUILD_DIR), 'ext')
    with open('/proc/self/maps') as f:
        for line in f:
            t = line.split(None, 5)
            if len(t) == 6 and t[5].strip().startswith(ext) and 'x' in t[1]:
                a, b = t[0].split('-')
                pairs += [int(a, 16), int(b, 16)]
    arr = (ctypes.c_size_t * len(pairs))(*pairs)
    C.sim_ranges(arr, len(pairs) // 2)


# ------------------------------------------------------------------ line events: preemption points, and asynchronous exceptions
class Lines:
    count = 0
    sites = None
    arm_at = -1
    exc = None
    fired = None
    only_thread = None
    on = False
    sched = False


_mon = sys.monitoring
_TOOL = 4


_CODES = {}


def _code_ok(code):
    r = _CODES.get(code)
    if r is None:
        fn = code.co_filename
        r = fn.startswith(PKG) or os.path.realpath(fn).startswith(PKG)
        _CODES[code] = r
    return r


def _on_line(code, line):
    if not _code_ok(code):
        return _mon.DISABLE
    if Lines.sched:
        if P.sim_pypoint():
            C.sim_pyyield()
    if Lines.on and (Lines.only_thread is None or Lines.only_thread == threading.get_ident()):
        k = Lines.count
        Lines.count = k + 1
        if Lines.sites is not None:
            Lines.sites.append((os.path.basename(code.co_filename), line))
        if k == Lines.arm_at:
            Lines.fired = '%s:%s:%d' % (os.path.relpath(os.path.realpath(code.co_filename), REPO), code.co_name, line)
            Lines.arm_at = -1
            raise Lines.exc()


def _hook_lines():
    _mon.use_tool_id(_TOOL, 'panels-sim')
    _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)


def lines_on(on):
    _mon.set_events(_TOOL, _mon.events.LINE if on else 0)


class SimKeyboardInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class inject_at_line(object):
    """Raises exc when the k-th line of the library's Python code since entry is about to run (k < 0: only counts)."""
    def __init__(self, k, exc=SimKeyboardInterrupt, collect=False):
        self.k, self.exc, self.collect = k, exc, collect
        self.count = 0
        self.fired = None

    def __enter__(self):
        Lines.count, Lines.arm_at, Lines.exc, Lines.fired = 0, self.k, self.exc, None
        Lines.sites = [] if self.collect else None
        Lines.only_thread = threading.get_ident()
        Lines.on = True
        lines_on(True)
        return self

    def __exit__(self, *a):
        Lines.on = False
        Lines.arm_at = -1
        if not Lines.sched:
            lines_on(False)
        self.count, self.fired, self.sites = Lines.count, Lines.fired, Lines.sites
        return False


# ------------------------------------------------------------------ NumPy allocation seam
class Alloc:
    on = False
    count = 0
    at = -1
    n = 1
    fired = 0


_ALLOC_FUNCS = ('zeros', 'empty', 'hstack', 'ascontiguousarray', 'concatenate', 'array', 'reshape', 'meshgrid', 'outer', 'zeros_like',
                'linspace', 'ravel', 'vstack', 'asarray', 'atleast_1d')


def _wrap_alloc(np, name):
    f = getattr(np, name)

    def g(*a, **k):
        if Alloc.on:
            i = Alloc.count
            Alloc.count = i + 1
            if Alloc.at >= 0 and Alloc.at <= i < Alloc.at + Alloc.n:
                Alloc.fired += 1
                raise SimMemoryError('simulated: cannot allocate (call %d of numpy.%s)' % (i, name))
        return f(*a, **k)
    g.__name__ = name
    g.__doc__ = f.__doc__
    g.__wrapped__ = f
    return f, g


class failing_alloc(object):
    """The allocations number at..at+n-1 made through NumPy since entry fail with MemoryError (at < 0: only counts)."""
    def __init__(self, at, n=1):
        self.at, self.n = at, n
        self.count = self.fired = 0

    def __enter__(self):
        import numpy as np
        self.saved = {}
        for nm in _ALLOC_FUNCS:
            f, g = _wrap_alloc(np, nm)
            self.saved[nm] = f
            setattr(np, nm, g)
        Alloc.count, Alloc.at, Alloc.n, Alloc.fired = 0, self.at, self.n, 0
        Alloc.on = True
        return self

    def __exit__(self, *a):
        import numpy as np
        Alloc.on = False
        for nm, f in self.saved.items():
            setattr(np, nm, f)
        self.count, self.fired = Alloc.count, Alloc.fired
        return False


# ------------------------------------------------------------------ heap seam (libsim)
class heap(object):
    def __init__(self, fill=None, fail_at=-1, fail_len=1):
        self.fill, self.fail_at, self.fail_len = fill, fail_at, fail_len

    def __enter__(self):
        C.sim_heap((1 if self.fill is not None else 0) | 2, (self.fill or 0) & ((1 << 64) - 1), self.fail_at, self.fail_len)
        return self

    def __exit__(self, *a):
        st = (ctypes.c_uint64 * 3)()
        C.sim_heap_stats(st)
        C.sim_heap(0, 0, -1, 1)
        self.calls, self.failed, self.filled = st[0], st[1], st[2]
        return False


# ------------------------------------------------------------------ threads under the scheduler
STAT_NAMES = ('points', 'switches', 'decisions', 'py_points', 'gil_deferrals', 'teams', 'short_teams', 'hash', 'threads', 'ntrace')


class SimLock(object):
    """Stands in for threading.Lock/RLock while a simulation runs: waiting is a scheduler decision."""
    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        t = threading.get_ident()
        if self.reentrant and self.owner == t:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if not C.sim_in_thread():
                raise HarnessError('simulated lock contended outside a simulation')
            C.sim_force_yield()
        self.owner, self.depth = t, 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


FATAL_FD = -1


def explicit(events):
    arr = (Ev * max(1, len(events)))()
    for i, (f, t, p, k) in enumerate(events):
        arr[i].frm, arr[i].to, arr[i].pts, arr[i].kind = f, t, p, k
    return arr


def run_threads(fns, sched, pylines=True):
    """Runs the callables as concurrent simulated threads. sched: dict(seed, maxq, grant_p, threads, max_points, events).
    Returns (results, stats, trace); a result is ('ok', value) or ('exc', exception)."""
    ev = sched.get('events')
    arr = explicit(ev) if ev is not None else None
    C.sim_set_max_threads(int(sched.get('threads', 4)))
    res = [None] * len(fns)
    ids = [None] * len(fns)
    ready = [threading.Event() for _ in fns]

    def body(i):
        try:
            ready[i].set()
            C.sim_attach(ids[i])
            try:
                res[i] = ('ok', fns[i]())
            except BaseException as e:  # noqa
                res[i] = ('exc', e)
        finally:
            C.sim_detach()

    C.sim_begin(sched.get('seed', 0) & ((1 << 64) - 1), 1 if ev is not None else 0, float(sched.get('maxq', 2000)),
                int(sched.get('grant_p', 0)), int(sched.get('max_points', 0)), arr, len(ev) if ev is not None else 0, FATAL_FD)
    if len(fns) == 1:
        try:
            Lines.sched = False
            try:
                res[0] = ('ok', fns[0]())
            except BaseException as e:  # noqa
                res[0] = ('exc', e)
        finally:
            C.sim_end()
    else:
        ths = []
        for i in range(len(fns)):
            ids[i] = C.sim_new_thread()
            th = threading.Thread(target=body, args=(i,), daemon=True)
            ths.append(th)
            th.start()
            ready[i].wait()
        olocks = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = SimLock, lambda: SimLock(True)
        if pylines:
            Lines.sched = True
            lines_on(True)
        try:
            for i in range(len(fns)):
                C.sim_join(ids[i])
        finally:
            Lines.sched = False
            if not Lines.on:
                lines_on(False)
            C.sim_end()
            threading.Lock, threading.RLock = olocks
        for th in ths:
            th.join(30)
    st = (ctypes.c_uint64 * 10)()
    C.sim_stats(st)
    n = st[9]
    tr = (Ev * max(1, n))()
    C.sim_trace(tr, n)
    stats = {k: int(st[i]) for i, k in enumerate(STAT_NAMES)}
    trace = [(tr[i].frm, tr[i].to, tr[i].pts, tr[i].kind) for i in range(n)]
    return res, stats, trace


# ------------------------------------------------------------------ disk seam (libsim)
class Disk(object):
    """Logs (and disturbs) every file operation below prefix."""
    CAP = 4 << 20

    def __init__(self, prefix, faults=()):
        self.prefix = os.path.realpath(prefix)
        self.buf = (ctypes.c_ubyte * self.CAP)()
        self.pos = ctypes.c_uint64(0)
        self.set_faults(faults, first=True)

    def set_faults(self, faults, first=False):
        self.farr = (DFault * max(1, len(faults)))()
        for i, f in enumerate(faults):
            self.farr[i].at, self.farr[i].kind = f['at'], f['kind']
            self.farr[i].err, self.farr[i].arg = f.get('err', errno.EIO), f.get('arg', 0)
            self.farr[i].opmask = f.get('opmask', 0)
        self.nf = len(faults)
        if not first:
            C.sim_disk_faults(ctypes.addressof(self.farr), self.nf)

    def on(self):
        C.sim_disk(self.prefix.encode(), ctypes.addressof(self.buf), self.CAP, ctypes.addressof(self.pos),
                   ctypes.addressof(self.farr), self.nf)

    def off(self):
        C.sim_disk_off()

    def fired(self):
        return [int(self.farr[i].fired) for i in range(self.nf)]

    def stats(self):
        st = (ctypes.c_uint64 * 10)()
        C.sim_disk_stats(st)
        return [int(x) for x in st]

    def mark(self):
        return int(self.pos.value)

    def records(self):
        if self.pos.value > self.CAP - (1 << 20):
            raise HarnessError('log of file operations is full')
        raw = bytes(self.buf[:self.pos.value])
        return parse_log(raw)


OPS = ['', 'creat', 'open', 'trunc', 'write', 'fsync', 'rename', 'unlink', 'link', 'fsyncdir', 'close', 'read', 'mkdir']


def parse_log(raw):
    import struct
    out = []
    p = 0
    fmt = struct.Struct('<IIqqII')
    while p + fmt.size <= len(raw):
        op, fault, ino, off, ln, pl = fmt.unpack_from(raw, p)
        p += fmt.size
        data = raw[p:p + ln]
        p += ln
        path = raw[p:p + pl].decode('utf-8', 'replace')
        p += pl
        out.append(dict(op=OPS[op], fault=fault, ino=ino, off=off, data=data, path=path, end=p))
    return out


def digest(*vals):
    """Stable digest of nested values and arrays."""
    h = hashlib.sha256()

    def add(v):
        import numpy as np
        import scipy.sparse as sp
        if v is None:
            h.update(b'N')
        elif isinstance(v, (list, tuple)):
            h.update(b'[%d' % len(v))
            for x in v:
                add(x)
        elif isinstance(v, dict):
            h.update(b'{%d' % len(v))
            for k in sorted(v, key=str):
                add(str(k))
                add(v[k])
        elif sp.issparse(v):
            m = v.tocsr(copy=True)
            m.sum_duplicates()
            add(m.indptr)
            add(m.indices)
            add(m.data)
        elif isinstance(v, np.ndarray):
            h.update(str(v.shape).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        else:
            h.update(repr(v).encode())
        return
    for v in vals:
        add(v)
    return h.hexdigest()[:16]
