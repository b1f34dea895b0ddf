"""Simulated multiprocessing.Process and Queue over real forked children.

A child is a real forked process that runs its target; every queue operation
it makes is a request to its keeper, a simulated thread in the parent, so
exactly one process computes at a time and the simulator decides how long each
computation takes, when a queue's feeder delivers, which waiting reader gets an
item, and where a child dies and what it leaves locked.
"""
import os
import pickle
import signal
import threading
import time
from queue import Empty, Full

from . import core
from .procs import _recv, _send

WORLD = None      # the parent's bookkeeping of this run
CHILD = None      # (rfd, wfd) in a child


class World:
    def __init__(self, ch, kill_p=0., start_fail=0, max_kills=1, durations=(.0001, .001, .01, .1, .6, 2., 40.)):
        self.ch, self.kill_p, self.start_fail, self.max_kills, self.durations = ch, kill_p, start_fail, max_kills, durations
        self.procs, self.queues = [], []
        self.starts = self.kills = self.natural = 0
        self.where = []

    def kill_now(self, phase):
        if self.kills < self.max_kills and self.kill_p and self.ch.chance(self.kill_p, 'f'):
            self.kills += 1
            self.where.append(phase)
            return True
        return False

    def end(self):
        for p in self.procs:
            p._reap()


def _feed(obj):
    """what a queue's feeder thread would send; it drops what it cannot pickle"""
    try:
        return pickle.dumps(obj)
    except Exception:
        return None


class SimQueue:
    def __init__(self, maxsize=0, *, ctx=None):
        self.q = len(WORLD.queues)
        WORLD.queues.append(self)
        self.maxsize = maxsize if maxsize > 0 else 1 << 40
        self.items = []           # delivered messages
        self.out = {}             # producer -> messages its feeder still holds
        self.count = 0            # put and not yet got
        self.reader = None        # process in get()
        self.rdead = self.wdead = False
        self.cancelled = False

    def __reduce__(self):
        raise RuntimeError('Queue objects should only be shared between processes through inheritance')

    # -- the parent's or a child's side
    def put(self, obj, block=True, timeout=None):
        if CHILD:
            _send(CHILD[1], ('put', self.q, _feed(obj), block, timeout))
            if not _recv(CHILD[0]):
                raise Full
            return
        core.SIM.point('put')
        if not self.do_put(None, _feed(obj), block, timeout):
            raise Full

    def get(self, block=True, timeout=None):
        if CHILD:
            _send(CHILD[1], ('get', self.q, block, timeout))
            r = _recv(CHILD[0])
        else:
            core.SIM.point('get')
            r = self.do_get(None, block, timeout)
        if r is None:
            raise Empty
        return pickle.loads(r)

    def put_nowait(self, obj):
        self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        if CHILD:
            _send(CHILD[1], ('empty', self.q))
            return _recv(CHILD[0])
        core.SIM.point('empty')
        core.SIM.poll_events()
        return not self.items

    def qsize(self):
        if CHILD:
            _send(CHILD[1], ('qsize', self.q))
            return _recv(CHILD[0])
        return self.count

    def full(self):
        return self.qsize() >= self.maxsize

    def close(self):
        pass

    def join_thread(self):
        if not CHILD:
            core.SIM.block(lambda: not self.out.get(None), None, 'queue join_thread')

    def cancel_join_thread(self):
        if not CHILD:
            self.cancelled = True

    # -- performed in the parent
    def do_put(self, who, data, block=True, timeout=None):
        s = core.SIM
        dead = (lambda: who.dead) if who is not None else (lambda: False)
        if self.count >= self.maxsize:
            if not block or not s.block(lambda: self.count < self.maxsize or dead(), timeout, f'put on queue {self.q}'):
                return False
        if dead():
            return False
        self.count += 1
        self.out.setdefault(who, []).append(data)
        s.at(s.now + s.ch.pick((0., .0001, .01), 's'), lambda: self.deliver(who))
        return True

    def deliver(self, who):
        out = self.out.get(who)
        if not out or self.wdead:
            return
        data = out.pop(0)
        if data is None:
            self.count -= 1
        else:
            self.items.append(data)

    def flush(self, who):
        while self.out.get(who) and not self.wdead:
            self.deliver(who)

    def do_get(self, who, block=True, timeout=None):
        s = core.SIM
        dead = (lambda: who.dead) if who is not None else (lambda: False)
        end = None if timeout is None else s.now + timeout
        left = lambda: None if end is None else max(0., end - s.now)
        key = who if who is not None else self
        free = lambda: (self.reader is None and not self.rdead) or dead()
        s.poll_events()
        if not block or timeout is not None and timeout <= 0:
            if not free() or not self.items:
                return None
        elif not free() and not s.block(free, left(), f'get on queue {self.q}'):
            return None
        if dead():
            return None
        self.reader = key
        try:
            if not self.items and not s.block(lambda: self.items or dead(), left(), f'get on queue {self.q}'):
                return None
            if dead():
                return None
            self.count -= 1
            return self.items.pop(0)
        finally:
            if self.reader is key:
                if not dead():
                    self.reader = None
                else:
                    self.reader, self.rdead = None, True       # died holding the lock of the readers


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.daemon = bool(daemon)
        self._pid = None
        self._keeper = None
        self.dead = False
        self._exit = None
        self.k = len(WORLD.procs)
        self.name = name or f'Process-{self.k + 1}'
        WORLD.procs.append(self)

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        global CHILD
        assert self._pid is None, 'cannot start a process twice'
        if core.SIM is None:
            raise core.HarnessError('process started outside a simulation')
        core.SIM.point('start')
        WORLD.starts += 1
        if WORLD.starts == WORLD.start_fail:
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        self._r, cw = os.pipe()
        cr, self._w = os.pipe()
        self._pid = os.fork()
        if self._pid == 0:
            code = 1
            try:
                for p in WORLD.procs:
                    for fd in (getattr(p, '_r', None), getattr(p, '_w', None)):
                        if fd is not None:
                            try:
                                os.close(fd)
                            except OSError:
                                pass
                core.SIM = None
                CHILD = (cr, cw)
                try:
                    self.run()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    code = 1
                _send(cw, ('exit', code & 0xff))
            finally:
                os._exit(code & 0xff)
        os.close(cw)
        os.close(cr)
        self._keeper = threading.Thread(target=self._keep, name=self.name, daemon=True)
        self._keeper.start()

    @property
    def pid(self):
        return self._pid

    ident = pid

    @property
    def exitcode(self):
        core.SIM.point('exitcode')
        core.SIM.poll_events()
        return self._exit

    def is_alive(self):
        core.SIM.point('is_alive')
        core.SIM.poll_events()
        return self._pid is not None and self._exit is None

    def join(self, timeout=None):
        assert self._pid is not None, 'can only join a started process'
        if self._exit is None:
            core.SIM.block(lambda: self._exit is not None, timeout, f'join of {self.name}')

    def terminate(self):
        if self._pid is None:
            raise AttributeError("'NoneType' object has no attribute 'terminate'")
        self._stop(-15)

    def kill(self):
        if self._pid is None:
            raise AttributeError("'NoneType' object has no attribute 'kill'")
        self._stop(-9)

    def close(self):
        if self._pid is not None and self._exit is None:
            raise ValueError('Cannot close a process while it is still running. You should first call join() or terminate().')

    # -- the keeper
    def _reap(self):
        if self._pid is None:
            return
        for a in ('_r', '_w'):
            fd = getattr(self, a, None)
            if fd is not None:
                os.close(fd)
                setattr(self, a, None)
                if a == '_w':
                    try:
                        os.kill(self._pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    try:
                        os.waitpid(self._pid, 0)
                    except ChildProcessError:
                        pass

    def _stop(self, code, lock=None):
        """the process dies now, without its feeders sending what they hold"""
        if self.dead or self._exit is not None:
            return
        self.dead = True
        s = core.SIM
        for q in WORLD.queues:
            mine = q.out.pop(self, None)
            if mine and s.ch.chance(.3, 'f'):
                q.wdead = True                     # while its feeder held the lock of the writers
            if q.reader is self:
                q.reader, q.rdead = None, True
        self._reap()

        def gone():
            self._exit = code
        s.at(s.now + s.ch.pick((0., .001), 's'), gone)

    def _keep(self):
        w, s = WORLD, core.SIM
        try:
            while not self.dead:
                try:
                    req = _recv(self._r)
                except EOFError:                   # ended without a word: os._exit, a signal
                    pid, st = os.waitpid(self._pid, 0)
                    w.natural += 1
                    os.close(self._r), os.close(self._w)
                    self._r = self._w = None
                    s.sleep(s.ch.pick(w.durations, 's'))
                    if not self.dead:
                        self._stop(os.waitstatus_to_exitcode(st))
                    return
                s.sleep(s.ch.pick(w.durations, 's') if req[0] in ('put', 'exit') else 1e-5)
                if self.dead:
                    return
                s.note('proc', self.k, req[0])
                if w.kill_now('before ' + req[0]):
                    return self._stop(-9)
                if req[0] == 'exit':
                    for q in w.queues:             # a normal exit waits for the feeders
                        if q.wdead and q.out.get(self):
                            s.block(lambda: self.dead, None, f'exit of {self.name}')
                            return
                        q.flush(self)
                    self._reap()
                    self._exit = req[1]
                    self.dead = True
                    return
                q = w.queues[req[1]]
                if req[0] == 'put':
                    r = q.do_put(self, *req[2:])
                elif req[0] == 'get':
                    if w.kill_p and w.kills < w.max_kills and s.ch.chance(w.kill_p, 'f'):
                        w.kills += 1
                        w.where.append('in get')
                        s.at(s.now + s.ch.pick(w.durations, 's'), lambda: self._stop(-9))
                    r = q.do_get(self, *req[2:])
                elif req[0] == 'empty':
                    r = not q.items
                else:
                    r = q.count
                if self.dead:
                    return
                if w.kill_now('after ' + req[0]):
                    return self._stop(-9)
                _send(self._w, r)
        except (OSError, EOFError) as e:
            if not self.dead:
                raise
