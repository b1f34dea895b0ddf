"""Deterministic thread scheduler.

install() must run before anything imports concurrent.futures.  It replaces
the lock, thread, queue and clock primitives of the standard library with
versions that behave normally outside a simulation and hand control to the
scheduler inside one.  Simulated threads are real threads of which exactly one
holds the run token at a time; which one, and when it gives the token up, is
decided by the run's Choices.  Pre-emption points are lock, queue and thread
operations plus, in the code objects registered with watch(), every line start
and every return from a call (sys.monitoring INSTRUCTION events), so no hook
in the code under test is needed and removing a lock adds interleavings
instead of hiding them.
"""
import _thread
import dis
import gc
import hashlib
import heapq
import itertools
import os
import sys
import threading
import time
import types

_real_lock = _thread.allocate_lock
_real_start = threading._start_new_thread if hasattr(threading, '_start_new_thread') else _thread.start_new_thread
_real_ident = _thread.get_ident
_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive
_real_time = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns', 'perf_counter_ns')}

SIM = None            # the active Sim, if any
EPOCH = 1_700_000_000.0


class SimViolation(Exception):
    """Raised by checks: the property is broken."""

    def __init__(self, sig, msg):
        super().__init__(f'{sig}: {msg}')
        self.sig = sig
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself is at fault."""


class InjectedError(Exception):
    """An exception the simulator made application code raise."""


class InjectedMemoryError(MemoryError, InjectedError):
    """A failing allocation."""


class _T:
    __slots__ = ('idx', 'name', 'tok', 'state', 'waiting', 'deadline', 'thread', 'ident', 'timed_out', 'where')

    def __init__(self, idx, name):
        self.idx = idx
        self.name = name
        self.tok = _real_lock()
        self.tok.acquire()
        self.state = 'run'      # run | block | done
        self.waiting = None     # callable -> bool, may proceed?
        self.deadline = None
        self.thread = None
        self.ident = None
        self.timed_out = False
        self.where = ''


class Sim:
    def __init__(self, choices, mode=None, max_steps=400_000):
        self.ch = choices
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.threads = []
        self.cur = None
        self.by_ident = {}
        self.switches = 0
        self.preemptions = 0
        self.trace = hashlib.sha256()
        self.log = []
        self.keep_log = False
        self.fatal = None        # callable(sig, msg) -> never returns
        self.probes = {}
        self.active = False
        self.nopreempt = 0
        if mode is None:
            mode = self.ch.pick(['none', 'rare', 'medium', 'dense', 'every'], 's', [1, 3, 4, 4, 2])
        self.mode = mode
        self.mean = dict(none=0, rare=150, medium=30, dense=7, every=2)[mode]
        self.starve = self.ch.below(6, 's') if mode != 'none' else 0   # 1..5: thread idx kept last
        self.gapleft = 0
        self.events = []
        self._eseq = itertools.count()
        self.leftover = []
        self.inject = None       # see FailAfter

    # ---- life cycle ---------------------------------------------------
    def run(self, fn, *a):
        """Run fn as simulated thread 0 in this (real) thread."""
        global SIM, _hashes
        assert SIM is None
        _hashes = itertools.count(1024)
        t = self._add('main')
        t.ident = _real_ident()
        self.by_ident[t.ident] = t
        self.cur = t
        SIM = self
        self.active = True
        self._newgap()
        try:
            r = fn(*a)
            # drain: threads the code under test left behind
            left = [x for x in self.threads[1:] if x.state != 'done']
            if left:
                self.leftover = [x.name for x in left]
            else:
                self.leftover = []
            return r
        finally:
            self.active = False
            SIM = None

    def _add(self, name):
        t = _T(len(self.threads), name)
        self.threads.append(t)
        return t

    def me(self):
        t = self.by_ident.get(_real_ident())
        return t

    # ---- scheduling ---------------------------------------------------
    def _newgap(self):
        self.gapleft = self.ch.gap(self.mean, 's') if self.mean else 0

    def note(self, *what):
        s = repr(what)
        self.trace.update(s.encode())
        if self.keep_log:
            self.log.append(s)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def _runnable(self):
        out = []
        for t in self.threads:
            if t.state == 'run':
                out.append(t)
            elif t.state == 'block' and t.waiting is not None and t.waiting():
                out.append(t)
        return out

    def _choose(self, cands):
        if len(cands) == 1:
            return cands[0]
        if self.starve:
            rest = [c for c in cands if c.idx != self.starve]
            if rest:
                cands = rest
        return cands[self.ch.below(len(cands), 's')]

    def _bump(self, where):
        self.steps += 1
        self.now += 1e-6
        if self.steps > self.max_steps:
            self._die('no-progress', f'step budget exceeded at {where}')

    def _die(self, sig, msg):
        self.active = False
        if self.fatal:
            self.fatal(sig, msg)
        os._exit(70)

    def _to(self, t, where):
        """hand the token to t (caller is the current thread)"""
        me = self.cur
        if t is me:
            me.state = 'run'
            return
        self.switches += 1
        self.note('sw', me.idx, t.idx, where)
        self.cur = t
        t.tok.release()
        if me.state != 'done':
            me.tok.acquire()

    def point(self, where):
        """a pre-emption point of the current thread"""
        if not self.active or self.nopreempt:
            return
        me = self.cur
        if me.ident != _real_ident():
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._die('no-progress', f'step budget exceeded at {where}')
        if self.mean == 0 or len(self.threads) < 2 or self.gapleft == 0:
            return
        self.gapleft -= 1
        if self.gapleft > 0:
            return
        if _phil is not None and _phil.value > 0:
            # HDF5's process-wide lock is a native lock we cannot yield in:
            # wait for the next point outside it
            self.gapleft = 1
            return
        self._newgap()
        others = [t for t in self._runnable() if t is not me]
        if not others:
            return
        self.preemptions += 1
        self._to(self._choose(others), where)

    def block(self, ready, timeout=None, where='?'):
        """Block until ready() or the deadline; returns ready()."""
        me = self.cur
        if me.ident != _real_ident():
            raise HarnessError(f'block() outside the token holder at {where}')
        if me.state == 'block':
            raise HarnessError(f'an event blocks at {where}')
        self._bump(where)
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        me.waiting = ready
        me.state = 'block'
        me.timed_out = False
        me.where = where
        t = self._next(where)
        self._to(t, where)
        me.state = 'run'
        me.waiting = None
        me.deadline = None
        return not me.timed_out or bool(ready())

    def at(self, when, fn):
        """run fn at simulated time `when` (once nothing earlier can run)"""
        heapq.heappush(self.events, (max(when, self.now), next(self._eseq), fn))

    def _next(self, where):
        """the thread to run next when the current one cannot go on"""
        while True:
            cands = self._runnable()
            if cands:
                return self._choose(cands)
            timers = [x for x in self.threads if x.state == 'block' and x.deadline is not None]
            t = min(timers, key=lambda x: (x.deadline, x.idx)) if timers else None
            if self.events and (t is None or self.events[0][0] <= t.deadline):
                when, _, fn = heapq.heappop(self.events)
                self.now = max(self.now, when)
                self._bump('event')
                self.nopreempt += 1      # an event is one step
                try:
                    fn()
                finally:
                    self.nopreempt -= 1
                continue
            if t is None:
                self._die('deadlock', 'nothing can run: ' + '; '.join(
                    f'{x.name} blocked in {x.where}' for x in self.threads if x.state == 'block'))
            self.now = max(self.now, t.deadline)
            t.timed_out = True
            t.state = 'run'
            return t

    def poll_events(self):
        """run the events that are due now"""
        while self.events and self.events[0][0] <= self.now:
            fn = heapq.heappop(self.events)[2]
            self.nopreempt += 1
            try:
                fn()
            finally:
                self.nopreempt -= 1

    def sleep(self, dt):
        self.block(lambda: False, max(dt, 0.0), 'sleep')

    # ---- threads ------------------------------------------------------
    def start_thread(self, bootstrap, args, thread=None):
        t = self._add(f'T{len(self.threads)}')
        t.thread = thread
        if thread is not None:
            thread._sim_t = t

        def body():
            t.tok.acquire()
            try:
                bootstrap(*args)
            finally:
                self._finish(t)
        started = _real_lock()
        started.acquire()

        def outer():
            t.ident = _real_ident()
            self.by_ident[t.ident] = t
            started.release()
            body()
        ident = _real_start(outer, ())
        started.acquire()
        self.point('spawn')
        return ident

    def _finish(self, t):
        t.state = 'done'
        self.by_ident.pop(t.ident, None)
        if not self.active:
            return
        n = self._next('end')
        self._to(n, 'end')


def SIM_DETACH():
    """in a forked child that leaves the simulation"""
    global SIM
    SIM = None


def in_sim():
    return SIM is not None and SIM.active and _real_ident() in SIM.by_ident


# ---- primitives -------------------------------------------------------
class SimLock:
    """drop-in for _thread.lock"""
    __slots__ = ('_l', '__weakref__')

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        if s is None or not s.active or _real_ident() not in s.by_ident:
            return self._l.acquire(blocking, timeout)
        s.point('acq')
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s.probe('lock-contended')
        lk = self._l
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while True:
            left = None if deadline is None else deadline - s.now
            ok = s.block(lambda: not lk.locked(), left, 'lock')
            if lk.acquire(False):
                return True
            if not ok or (deadline is not None and s.now >= deadline):
                return False

    def release(self):
        self._l.release()
        s = SIM
        if s is not None and s.active and _real_ident() in s.by_ident:
            s.point('rel')

    def locked(self):
        return self._l.locked()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()


def _sim_start_new_thread(fn, args, kwargs=None):
    if in_sim():
        th = getattr(fn, '__self__', None)
        return SIM.start_thread(fn, args, th)
    return _real_start(fn, args, *([] if kwargs is None else [kwargs]))


def _sim_join(self, timeout=None):
    t = getattr(self, '_sim_t', None)
    if t is not None and in_sim():
        ok = t.state == 'done' or SIM.block(lambda: t.state == 'done', timeout, 'join')
        if ok:
            _real_join(self)
        return
    return _real_join(self, timeout)


def _sim_is_alive(self):
    t = getattr(self, '_sim_t', None)
    if t is not None and in_sim():
        return t.state != 'done'
    return _real_is_alive(self)


def _clk(name):
    real = _real_time[name]
    ns = name.endswith('_ns')
    base = EPOCH if name.startswith('time') else 1000.0

    def f():
        s = SIM
        if s is not None and s.active:
            v = base + s.now
            return int(v * 1e9) if ns else v
        return real()
    f.__name__ = name
    return f


def _sim_sleep(dt):
    if in_sim():
        SIM.point('sleep')
        SIM.sleep(dt)
    else:
        _real_time['sleep'](dt)


_phil = None          # recursion count of h5py's global lock, read in place


def find_phil():
    global _phil
    import ctypes
    from h5py._objects import phil
    a = id(phil)
    v = ctypes.c_int.from_address(a + 32)
    own = ctypes.c_long.from_address(a + 24)
    with phil:
        with phil:
            ok = v.value == 2 and own.value == _real_ident()
        ok = ok and v.value == 1
    if not (ok and v.value == 0):
        raise HarnessError('cannot locate the h5py lock state')
    _phil = v


_hashes = itertools.count(1)


def _seq_hash(self):
    h = self.__dict__.get('_verif_hash')
    if h is None:
        h = self.__dict__['_verif_hash'] = next(_hashes)
    return h


# ---- imports -----------------------------------------------------------
# Python's per-module import locks are native, so an import at run time is one
# step: no pre-emption inside it, and one thread at a time.
import builtins
_real_import = builtins.__import__
_import_owner = None
_import_depth = 0


def _sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    global _import_owner, _import_depth
    s = SIM
    if s is None or not s.active:
        return _real_import(name, globals, locals, fromlist, level)
    if level == 0:
        m = sys.modules.get(name)
        if m is not None and all(hasattr(m, x) for x in fromlist or ()):
            return _real_import(name, globals, locals, fromlist, level)
    me = s.cur
    if me.ident != _real_ident():
        return _real_import(name, globals, locals, fromlist, level)
    if _import_owner is not None and _import_owner is not me:
        s.block(lambda: _import_owner is None, None, 'import')
    _import_owner = me
    _import_depth += 1
    s.nopreempt += 1
    try:
        return _real_import(name, globals, locals, fromlist, level)
    finally:
        s.nopreempt -= 1
        _import_depth -= 1
        if _import_depth == 0:
            _import_owner = None


_installed = False


def install():
    global _installed
    if _installed:
        return
    for bad in ('concurrent.futures.thread', 'concurrent.futures._base', 'multiprocessing.pool'):
        if bad in sys.modules:
            raise HarnessError(f'{bad} imported before the simulator')
    _installed = True
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    _thread.allocate_lock_real = _real_lock
    threading._start_new_thread = _sim_start_new_thread
    threading.Thread.join = _sim_join
    threading.Thread.is_alive = _sim_is_alive
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
        setattr(time, n, _clk(n))
    time.sleep = _sim_sleep
    threading._time = time.monotonic
    queue.time = time.monotonic
    # sets of threads and futures iterate in creation order, not by address
    threading.Thread.__hash__ = _seq_hash
    from concurrent.futures import _base
    _base.Future.__hash__ = _seq_hash
    builtins.__import__ = _sim_import
    import timeit
    timeit.default_timer = time.perf_counter


# ---- statement-level pre-emption --------------------------------------
_TOOL = 3
_points = {}          # code -> set of offsets
# after these CPython may run other Python code or drop the GIL
_CALLISH = {'CALL', 'CALL_FUNCTION_EX', 'CALL_KW', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'RESUME', 'JUMP_BACKWARD',
            'BINARY_SLICE', 'STORE_SLICE', 'DELETE_SUBSCR', 'SEND', 'BEFORE_WITH'}


def _offsets(code):
    out = set()
    prev = None
    for ins in dis.get_instructions(code):
        if ins.opname == 'CACHE':
            continue
        if ins.starts_line or (prev in _CALLISH):
            if ins.opname not in ('RESUME', 'COPY_FREE_VARS', 'MAKE_CELL', 'RETURN_GENERATOR'):
                out.add(ins.offset)
        prev = ins.opname
    return out


def _cb(code, off):
    pts = _points.get(code)
    if pts is None or off not in pts:
        return sys.monitoring.DISABLE
    s = SIM
    if s is not None and s.active:
        s.point((code.co_name, off))
        if s.inject is not None:
            e = s.inject(s.cur, code)
            if e is not None:
                s.note('inject', code.co_name, off)
                raise e
    return None


class FailAfter:
    """a failing allocation: MemoryError at the n-th instruction point matched by `where(thread, code)`"""

    def __init__(self, n, where=None, exc=None):
        self.left = n
        self.where = where
        self.fired = 0
        self.exc = exc or (lambda: InjectedMemoryError('simulated failing allocation'))

    def __call__(self, t, code):
        if self.left <= 0 or (self.where is not None and not self.where(t, code)):
            return None
        self.left -= 1
        if self.left == 0:
            self.fired += 1
            return self.exc()
        return None


def _walk(code, acc):
    if code in acc:
        return
    acc[code] = True
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, acc)


_watching = False


def _start_watching():
    global _watching
    mon = sys.monitoring
    if not _watching:
        mon.use_tool_id(_TOOL, 'verif-sim')
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, _cb)
        _watching = True


def watch_code(code):
    """register pre-emption points in one code object and those inside it"""
    _start_watching()
    acc = {}
    _walk(code, acc)
    for c in acc:
        if c not in _points:
            _points[c] = _offsets(c)
            sys.monitoring.set_local_events(_TOOL, c, sys.monitoring.events.INSTRUCTION)


def watch(files, skip=()):
    """register pre-emption points in every function defined in these files"""
    mon = sys.monitoring
    _start_watching()
    files = tuple(os.path.realpath(f) for f in files)
    acc = {}
    jit = set()
    for o in gc.get_objects():
        if hasattr(type(o), '__mro__') and type(o).__name__ in ('CPUDispatcher', 'DUFunc'):
            pf = getattr(o, 'py_func', None)
            if pf is not None:
                jit.add(pf.__code__)
    for o in gc.get_objects():
        if type(o) is types.FunctionType and os.path.realpath(o.__code__.co_filename) in files:
            if o.__code__ in jit or o.__name__ in skip:
                continue
            _walk(o.__code__, acc)
    n = 0
    for c in acc:
        if c in _points or c.co_name in skip:
            continue
        _points[c] = _offsets(c)
        n += len(_points[c])
        mon.set_local_events(_TOOL, c, mon.events.INSTRUCTION)
    return len(acc), n
