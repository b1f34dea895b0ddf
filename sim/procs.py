"""Simulated process pools over real forked workers.

The workers are real child processes (so fork inheritance, process globals,
initializers and pickling are the real thing), but the pool around them is a
stand-in: exactly one worker computes at a time, and the simulator decides
which worker takes which batch, how long it takes on the simulated clock, the
order of completion, and which batches fail or which workers die.
"""
import concurrent.futures
import concurrent.futures.process as cfp
import itertools
import multiprocessing
import multiprocessing.pool as mpp
import multiprocessing.context as mpc
import os
import pickle
import signal
import struct
import sys
import traceback
import weakref
from concurrent.futures import _base as cfb

from . import core
from .choices import Choices
from .core import HarnessError, InjectedError

PRISTINE = {}
LIVE = {}            # pid -> SimWorker (in this process)
POOLS = weakref.WeakSet()
POLICY = None        # per-run Policy
PROBES = {}


class Policy:
    """what the simulator may do to pools in this run"""

    def __init__(self, ch, sim_mode='none'):
        self.ch = ch
        self.raise_p = 0.0        # a batch's function raises
        self.kill_p = 0.0         # worker dies (executors only unless kill_pool)
        self.kill_pool = False
        self.max_faults = 1
        self.faults = 0
        self.counts = {'task-exception': 0, 'worker-killed': 0}
        self.log = []
        self.durations = (0.001, 0.01, 0.1, 0.2499, 0.25, 1.0, 30.0)
        self.created = 0
        self.batches = 0
        self.sim_mode = sim_mode
        self.spec = None          # exact fault: (batch number, kind)
        self.nested = (0.0, 0.0)  # raise_p, kill_p for pools inside workers
        self.nested_faults = 0

    def duration(self):
        return self.ch.pick(self.durations, 's')

    def fault(self, allow_kill):
        if self.faults >= self.max_faults:
            return None
        if self.raise_p and self.ch.chance(self.raise_p, 'f'):
            self.faults += 1
            return 'raise'
        if allow_kill and self.kill_p and self.ch.chance(self.kill_p, 'f'):
            self.faults += 1
            return 'kill'
        return None


def snapshot(prefixes=('hexrd',)):
    """remember module globals, to emulate a spawned (fresh) interpreter"""
    PRISTINE.clear()
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.split('.')[0] in prefixes and hasattr(mod, '__dict__'):
            PRISTINE[name] = (mod, dict(vars(mod)))


def _reset_to_pristine():
    for mod, d in PRISTINE.values():
        v = vars(mod)
        for k in [k for k in v if k not in d]:
            del v[k]
        v.update(d)


def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack('<Q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _readn(fd, n):
    out = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            raise EOFError
        out.append(b)
        n -= len(b)
    return b''.join(out)


def _recv(fd):
    n, = struct.unpack('<Q', _readn(fd, 8))
    return pickle.loads(_readn(fd, n))


class _Wrapped(Exception):
    pass


def _encode_exc(e):
    try:
        pickle.loads(pickle.dumps(e))
        return e
    except Exception:
        return RuntimeError(f'{type(e).__name__}: {e}')


class SimWorker:
    """one forked child that executes batches one at a time"""

    def __init__(self, initializer, initargs, start_method):
        self.rfd, cw = os.pipe()
        cr, self.wfd = os.pipe()
        self.start_method = start_method
        self.init_error = None
        if start_method != 'fork':
            # arguments travel by pickle
            initializer, initargs = pickle.loads(pickle.dumps((initializer, initargs)))
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.rfd)
                os.close(self.wfd)
                for w in list(LIVE.values()):
                    for fd in (w.rfd, w.wfd):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                LIVE.clear()
                self._child(cr, cw, initializer, initargs)
            except BaseException:
                try:
                    _send(cw, ('fatal', 'worker-harness', traceback.format_exc()))
                except OSError:
                    pass
            finally:
                os._exit(0)
        os.close(cw)
        os.close(cr)
        LIVE[self.pid] = self
        self.init_error = _recv(self.rfd)
        if isinstance(self.init_error, tuple):
            core.SIM._die(*self.init_error[1:])

    def _child(self, r, w, initializer, initargs):
        global POLICY
        core.SIM = None
        parent_policy = POLICY
        if self.start_method != 'fork':
            _reset_to_pristine()
        err = None
        if initializer is not None:
            try:
                initializer(*initargs)
            except BaseException as e:
                err = f'{type(e).__name__}: {e}'
        _send(w, err)
        while True:
            try:
                req = _recv(r)
            except EOFError:
                return
            sub, payload = req
            try:
                func, items = pickle.loads(payload)
            except BaseException as e:
                _send(w, ([(False, _encode_exc(e))], '', 0))
                continue
            ch = Choices(replay={}) if sub == 0 else Choices(seed=sub, label='sub')
            POLICY = Policy(ch)
            POLICY.durations = parent_policy.durations
            POLICY.raise_p, POLICY.kill_p = parent_policy.nested
            sim = core.Sim(ch, max_steps=2_000_000, mode=parent_policy.sim_mode)

            def fatal(sig, msg):
                _send(w, ('fatal', sig, msg))
                os._exit(0)
            sim.fatal = fatal

            def work():
                out = []
                for it in items:
                    try:
                        out.append((True, func(*it[0], **it[1])))
                    except BaseException as e:
                        out.append((False, _encode_exc(e)))
                return out
            try:
                out = sim.run(work)
            finally:
                reap()
            try:
                data = pickle.dumps(out, protocol=4)
            except BaseException as e:
                out = [(False, mpp.MaybeEncodingError(repr(e), 'result'))] * len(items)
                data = pickle.dumps(out, protocol=4)
            _send(w, (data, sim.trace.hexdigest(), sim.now, POLICY.counts))

    def execute(self, func, items, sub):
        """returns [(ok, value)] for items [(args, kwargs)]"""
        payload = pickle.dumps((func, items), protocol=4)   # may raise, as the real pools do
        _send(self.wfd, (sub, payload))
        r = _recv(self.rfd)
        if r[0] == 'fatal':
            core.SIM._die(r[1], 'in a worker process: ' + r[2])
        if isinstance(r[0], list):
            return r[0]
        data, trace, dt, counts = r
        for k, v in counts.items():
            POLICY.counts[k] += v
            POLICY.nested_faults += v
        if trace:
            core.SIM.note('sub', trace)
        return pickle.loads(data)

    def kill(self):
        if self.pid is None:
            return
        for fd in (self.rfd, self.wfd):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        LIVE.pop(self.pid, None)
        self.pid = None


def _raise_injected(*a, **k):
    raise InjectedError('simulated failure inside a worker')


def _method_of(ctx):
    if ctx is None:
        return multiprocessing.get_start_method(allow_none=False)
    return ctx.get_start_method()


class _Job:
    def __init__(self, pool, n):
        self.pool = pool
        self.left = n
        self.error = None
        self.values = None
        self.arrivals = []     # (index, ok, value)
        self.done = n == 0
        self.callback = None
        self.error_callback = None


class SimAsyncResult:
    def __init__(self, job, single=False):
        self._job = job
        self._single = single

    def ready(self):
        s = core.SIM
        if s is not None and s.active:
            s.poll_events()
            s.point('ready')
        return self._job.done

    def successful(self):
        if not self._job.done:
            raise ValueError(f'{self!r} not ready')
        return self._job.error is None

    def wait(self, timeout=None):
        if self._job.done:
            return
        core.SIM.block(lambda: self._job.done, timeout, 'pool result')

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._job.done:
            raise multiprocessing.TimeoutError
        if self._job.error is not None:
            raise self._job.error
        return self._job.values[0] if self._single else self._job.values


class SimIMap:
    def __init__(self, job, n, ordered):
        self._job = job
        self._n = n
        self._i = 0
        self._ordered = ordered
        self._pool = job.pool

    def __iter__(self):
        return self

    def _avail(self):
        a = self._job.arrivals
        if self._ordered:
            for x in a:
                if x[0] == self._i:
                    return x
            return None
        return a[self._i] if self._i < len(a) else None

    def __next__(self, timeout=None):
        if self._i >= self._n:
            raise StopIteration
        if self._avail() is None:
            core.SIM.block(lambda: self._avail() is not None, timeout, 'pool imap')
        x = self._avail()
        if x is None:
            raise multiprocessing.TimeoutError
        self._i += 1
        if x[1]:
            return x[2]
        raise x[2]

    next = __next__


class _Engine:
    """batch queue shared by both pool flavours"""

    def __init__(self, n, initializer, initargs, method, on_death, label):
        self.method = method
        self.initializer = initializer
        self.initargs = initargs
        self.queue = []
        self.on_death = on_death
        self.closed = False
        self.dead = False
        self.label = label
        self.running = 0
        self.workers = []
        self.idle = []
        POLICY.created += 1
        for _ in range(n):
            self._spawn()

    def _spawn(self):
        w = SimWorker(self.initializer, self.initargs, self.method)
        self.workers.append(w)
        if w.init_error:
            w.kill()
            self.workers.remove(w)
            self.broken_init = w.init_error
        else:
            self.idle.append(w)
        return w

    broken_init = None

    def submit(self, func, items, deliver):
        self.queue.append((func, items, deliver))
        self._kick()

    def _kick(self):
        s = core.SIM
        while self.queue and self.idle and not self.dead:
            w = self.idle.pop(s.ch.below(len(self.idle), 's'))
            func, items, deliver = self.queue.pop(0)
            POLICY.batches += 1
            num = POLICY.batches
            fault = POLICY.fault(self.on_death is not None or POLICY.kill_pool)
            if POLICY.spec is not None and POLICY.spec[0] == num:
                fault = POLICY.spec[1]
            s.note('batch', self.label, num, self.workers.index(w), fault)
            f = func
            if fault == 'raise':
                POLICY.counts['task-exception'] += 1
                f = _raise_injected
            sub = s.ch.bits('s') if POLICY.sim_mode != 'none' else 0
            dur = POLICY.duration()
            try:
                res = w.execute(f, items, sub)
            except (pickle.PicklingError, AttributeError, TypeError) as e:
                res = [(False, e)] * len(items)
            if fault == 'kill':
                POLICY.counts['worker-killed'] += 1
                res = None
            self.running += 1
            s.at(s.now + dur, lambda w=w, res=res, deliver=deliver, num=num: self._finish(w, res, deliver, num))

    def _finish(self, w, res, deliver, num):
        if self.dead:
            return
        self.running -= 1
        core.SIM.note('done', self.label, num, res is None)
        if res is None:
            w.kill()
            self.workers.remove(w)
            if self.on_death is not None:
                self.on_death(deliver)
                return
            self._spawn()
        else:
            self.idle.append(w)
            self.idle.sort(key=self.workers.index)
            deliver(res)
        self._kick()

    def kill(self):
        self.dead = True
        self.queue.clear()
        for w in self.workers:
            w.kill()
        self.workers.clear()
        self.idle.clear()


class SimPool:
    """stand-in for multiprocessing.pool.Pool"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if not core.in_sim():
            raise HarnessError('process pool created outside a simulation')
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self._n = processes
        self._state = 'RUN'
        core.SIM.point('pool')
        self._e = _Engine(processes, initializer, initargs, _method_of(context), None, 'pool')
        if self._e.broken_init and not self._e.workers:
            core.SIM._die('deadlock', f'worker initializer always fails ({self._e.broken_init}): a real pool restarts workers for ever')
        POOLS.add(self)

    def _check(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    @property
    def _pool(self):
        return list(self._e.workers)

    def _submit(self, func, iterable, star, chunksize, single=False):
        items = list(iterable)
        n = len(items)
        job = _Job(self, n)
        job.values = [None] * n
        if chunksize is None:
            chunksize, extra = divmod(n, self._n * 4)
            if extra:
                chunksize += 1
        if n == 0 or chunksize <= 0:
            job.done = True
            job.left = 0
            return job, n
        for lo in range(0, n, chunksize):
            part = items[lo:lo + chunksize]

            def deliver(res, lo=lo, k=len(part)):
                bad = next((v for ok, v in res if not ok), None)
                for j in range(k):
                    ok, v = res[j] if j < len(res) else (False, bad)
                    job.arrivals.append((lo + j, ok, v))
                    if ok:
                        job.values[lo + j] = v
                if bad is not None and job.error is None:
                    job.error = bad
                job.left -= k
                if job.left == 0:
                    job.done = True
                    cb = job.callback if job.error is None else job.error_callback
                    if cb:
                        cb(job.error or (job.values[0] if single else job.values))
            self._e.submit(func, [(tuple(x) if star else (x,), {}) for x in part], deliver)
        return job, n

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        job, _ = self._submit(func, iterable, False, chunksize)
        job.callback, job.error_callback = callback, error_callback
        return SimAsyncResult(job)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        job, _ = self._submit(func, iterable, True, chunksize)
        return SimAsyncResult(job)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def imap(self, func, iterable, chunksize=1):
        self._check()
        if chunksize < 1:
            raise ValueError(f'Chunksize must be 1+, not {chunksize}')
        job, n = self._submit(func, iterable, False, chunksize)
        return SimIMap(job, n, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        if chunksize < 1:
            raise ValueError(f'Chunksize must be 1+, not {chunksize}')
        job, n = self._submit(func, iterable, False, chunksize)
        return SimIMap(job, n, False)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        job = _Job(self, 1)
        job.values = [None]
        job.callback, job.error_callback = callback, error_callback

        def deliver(res):
            ok, v = res[0]
            if ok:
                job.values[0] = v
            else:
                job.error = v
            job.done = True
            cb = job.callback if ok else job.error_callback
            if cb:
                cb(v)
        self._e.submit(func, [(tuple(args), dict(kwds))], deliver)
        return SimAsyncResult(job, single=True)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'

    def terminate(self):
        self._state = 'TERMINATE'
        self._e.kill()

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        if self._state == 'CLOSE':
            e = self._e
            if e.queue or e.running:
                core.SIM.block(lambda: not e.queue and not e.running, None, 'pool join')
            e.kill()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        try:
            self._e.kill()
        except Exception:
            pass

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')


_RealPPE = cfp.ProcessPoolExecutor


class SimExecutor(_RealPPE):
    """stand-in for ProcessPoolExecutor; inherits the real map()"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if not core.in_sim():
            raise HarnessError('process pool created outside a simulation')
        if max_workers is None:
            max_workers = os.cpu_count() or 1
        elif max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self._max_workers = max_workers
        self._args = (initializer, initargs, _method_of(mp_context))
        self._eng = None
        self._broken = False
        self._down = False
        self._pending = []
        POOLS.add(self)

    def _death(self, deliver):
        self._broken = 'A process in the process pool was terminated abruptly while the future was running or pending.'
        pend, self._pending = self._pending, []
        self._eng.kill()
        for f in pend:
            f.set_exception(cfp.BrokenProcessPool(self._broken))

    def submit(self, fn, /, *args, **kwargs):
        core.SIM.point('submit')
        if self._broken:
            raise cfp.BrokenProcessPool(self._broken)
        if self._down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if self._eng is None:
            ini, ia, method = self._args
            self._eng = _Engine(self._max_workers, ini, ia, method, self._death, 'exec')
            if self._eng.broken_init:
                self._broken = 'A child process terminated abruptly, the process pool is not usable anymore'
                raise cfp.BrokenProcessPool(self._broken)
        f = cfb.Future()
        f.set_running_or_notify_cancel()
        self._pending.append(f)

        def deliver(res):
            if f in self._pending:
                self._pending.remove(f)
            ok, v = res[0]
            if ok:
                f.set_result(v)
            else:
                f.set_exception(v)
        self._eng.submit(fn, [(args, kwargs)], deliver)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._down = True
        e = self._eng
        if e is None:
            return
        if cancel_futures:
            e.queue.clear()
        if wait and not e.dead and (e.queue or e.running):
            core.SIM.block(lambda: e.dead or (not e.queue and not e.running), None, 'executor shutdown')
        if wait:
            e.kill()

    def __del__(self):
        try:
            if self._eng:
                self._eng.kill()
        except Exception:
            pass


def install():
    mpp.Pool = SimPool
    cfp.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor


def live_workers():
    return len(LIVE)


def reap():
    for w in list(LIVE.values()):
        w.kill()
