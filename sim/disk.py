"""Control of the LD_PRELOAD disk seam (simdisk.c) and of 'node' processes
that run one save or load on the simulated disk."""
import ctypes
import errno
import os
import pickle
import signal
import struct
import sys
import time as _time

OPEN, READ, WRITE, TRUNC, SYNC, META, CLOSE = 1, 2, 4, 8, 16, 32, 64
MUT = WRITE | TRUNC | SYNC | META | CLOSE
MUT_NOCLOSE = WRITE | TRUNC | SYNC | META
RD = OPEN | READ
FAIL, STICKY, SHORT, CRASH, TORN, EOF, INTR, PAGETORN = 1, 2, 3, 4, 5, 6, 7, 8
ACT = {FAIL: 'io-error-once', STICKY: 'io-error-persistent', SHORT: 'short-transfer', CRASH: 'crash', TORN: 'crash-torn-write', EOF: 'early-eof', INTR: 'eintr', PAGETORN: 'crash-torn-write'}
_l = ctypes.CDLL(os.environ['VERIF_SO'])
_l.sd_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
_l.sd_count.restype = ctypes.c_long
_l.sd_total.restype = ctypes.c_long
_l.sd_fired.restype = ctypes.c_long
_l.sd_hash.restype = ctypes.c_ulonglong
_l.sd_root.argtypes = [ctypes.c_char_p]


def root(path):
    _l.sd_root(os.fsencode(path))


def on(v=True):
    _l.sd_on(int(v))


def clear():
    _l.sd_clear()


def unplan():
    _l.sd_unplan()


def plan(cls, nth, act, err=errno.EIO):
    _l.sd_plan(cls, nth, act, err)


def count(cls=127):
    return _l.sd_count(cls)


def fired(act=None):
    if act is None:
        return sum(_l.sd_fired(a) for a in ACT)
    return _l.sd_fired(act)


def hash():
    return '%016x' % _l.sd_hash()


class counting:
    """count operations in the block without faults"""

    def __init__(self, cls=127):
        self.cls = cls

    def __enter__(self):
        clear()
        on()
        return self

    def __exit__(self, *a):
        self.n = count(self.cls)
        on(False)


class Outcome:
    """what became of a node: kind is 'ok' (acknowledged), 'raised' or 'died'"""

    def __init__(self, kind, value=None, exc=None, code=None, ops=0, fired=None, hash=''):
        self.kind, self.value, self.exc, self.code = kind, value, exc, code
        self.ops, self.fired, self.hash = ops, fired or {}, hash

    def __repr__(self):
        return f'<{self.kind} {self.exc or ""} code={self.code}>'


def _w(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def node(fn, plans=(), cls=127, timeout=120, quiet=True):
    """Run fn() in a forked process with the disk fault plan armed.

    The outcome is reported the moment fn returns or raises; what the process
    does while exiting afterwards cannot change it (exit is immediate).
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if quiet and not os.environ.get('VERIF_DEBUG'):
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 2)
            from sim import core
            core.SIM_DETACH()
            clear()
            for p in plans:
                plan(*p)
            on(True)
            try:
                v = fn()
                kind, exc = 'ok', None
            except BaseException as e:
                kind, v, exc = 'raised', None, f'{type(e).__name__}: {e}'[:300]
            on(False)
            fr = {ACT[a]: fired(a) for a in ACT if fired(a)}
            try:
                b = pickle.dumps((kind, v, exc, count(cls), fr, hash()))
            except Exception as e:
                b = pickle.dumps(('harness', None, repr(e), 0, {}, ''))
            _w(w, struct.pack('<Q', len(b)) + b)
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    import select
    from sim import core
    end = core._real_time['monotonic']() + timeout
    hung = False
    while True:
        left = end - core._real_time['monotonic']()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hung:
        return Outcome('hung')
    if len(data) < 8:
        code = os.waitstatus_to_exitcode(st)
        fr = {}
        if code == 77:
            for p in plans:
                if p[2] in (CRASH, TORN, PAGETORN):
                    fr[ACT[p[2]]] = 1
        return Outcome('died', code=code, fired=fr)
    kind, v, exc, ops, fr, h = pickle.loads(data[8:])
    if kind == 'harness':
        raise core.HarnessError('node result not picklable: ' + exc)
    return Outcome(kind, v, exc, None, ops, fr, h)
