"""Workload and oracle helpers shared by the checks."""
import os
import threading

import numpy as np

from sim import core
from sim.core import SimViolation, InjectedError


def set_cpus(n):
    """the number of processors the code under test believes in"""
    import multiprocessing
    os.cpu_count = lambda: n
    multiprocessing.cpu_count = lambda: n
    if hasattr(os, 'sched_getaffinity'):
        os.sched_getaffinity = lambda pid=0: set(range(n))


DTYPES = ['uint16', 'uint8', 'int32', 'float64', 'float32', 'uint32', 'int16', 'int64', 'uint64', 'int8']


def gen_frames(ch, max_n=7, max_dim=13, dtypes=DTYPES, n=None, shape=None, dense=False):
    """frame stack with unique-ish, recognisable content"""
    n = ch.between(1, max_n) if n is None else n
    if shape is None:
        shape = (ch.between(1, max_dim), ch.between(1, max_dim))
    dt = np.dtype(ch.pick(dtypes))
    r = np.random.default_rng(ch.bits())
    fill = 1.0 if dense else ch.pick([0.4, 0.1, 0.9, 0.0, 1.0])
    if dt.kind == 'f':
        a = r.uniform(-50, 1000, size=(n,) + shape)
    else:
        hi = min(np.iinfo(dt).max, 100000)
        lo = 0 if dt.kind == 'u' else max(np.iinfo(dt).min, -1000)
        a = r.integers(lo, hi, size=(n,) + shape, endpoint=True)
    a = a.astype(dt)
    a[r.random(a.shape) >= fill] = 0
    # extreme values now and then
    if ch.chance(0.2):
        k = tuple(int(r.integers(0, s)) for s in a.shape)
        a[k] = np.finfo(dt).max if dt.kind == 'f' else min(np.iinfo(dt).max, 2 ** 40)
    return a


def gen_meta(ch, n, nested=False, strings=True):
    m = {}
    k = ch.below(5)
    r = np.random.default_rng(ch.bits())
    if k >= 1:
        om = np.linspace(0, 1, n + 1)
        m['omega'] = np.stack([om[:-1], om[1:]], axis=1)
    if k >= 2:
        m['vec'] = r.random(3)
    if k >= 3 and strings:
        m['label'] = 'run-' + str(int(r.integers(1000)))
    if k >= 4:
        m['count'] = int(r.integers(100))
        m['scale'] = float(r.random())
        m['grid'] = r.integers(0, 9, size=(2, 3))
    if nested and ch.chance(0.5):
        m['panel'] = {'a': r.random(2), 'inner': {'b': int(r.integers(9)), 'name': 'x%d' % r.integers(9)}}
    return m


def meta_equal(a, b):
    """same keys, same values (scalars and one-element arrays are the same)"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return all(meta_equal(a[k], b[k]) for k in a)
    x, y = norm(a), norm(b)
    return x.shape == y.shape and x.dtype.kind == y.dtype.kind and bool(np.all(x == y))


def norm(v):
    if isinstance(v, bytes):
        v = v.decode()
    a = np.asarray(v)
    if a.dtype.kind == 'S':
        a = a.astype('U')
    if a.dtype.kind == 'O':
        a = a.astype('U')
    if a.dtype.kind in 'ui':
        a = a.astype('i8') if a.dtype != 'u8' else a.astype('f8')
        a = a.astype('i8')
    if a.size == 1:
        a = a.reshape(())
    return a


def same(a, b, dtype=True):
    """bitwise-equal arrays (NaN equals NaN)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or (dtype and a.dtype != b.dtype):
        return False
    if a.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def describe_diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} != expected {b.shape}'
    if a.dtype != b.dtype:
        s = f'dtype {a.dtype} != expected {b.dtype}; '
    else:
        s = ''
    try:
        bad = ~((a == b) | ((a != a) & (b != b)))
        w = np.argwhere(bad)
        if len(w):
            i = tuple(w[0])
            s += f'{len(w)} of {a.size} differ, first at {tuple(int(x) for x in i)}: {a[i]!r} != expected {b[i]!r}'
    except Exception as e:
        s += repr(e)
    return s


def require_same(ctx, got, want, sig, what, dtype=True):
    ctx.evals += 1
    if not same(got, want, dtype):
        ctx.fail(sig, f'{what}: {describe_diff(got, want)}')


class Threads:
    """simulated client threads whose failures reach the check"""

    def __init__(self):
        self.ts = []
        self.errors = []

    def go(self, fn, *a, name=None):
        def body():
            try:
                fn(*a)
            except BaseException as e:
                self.errors.append(e)
        t = threading.Thread(target=body, name=name or f'client{len(self.ts)}')
        self.ts.append(t)
        t.start()
        return t

    def join(self):
        for t in self.ts:
            t.join()
        if self.errors:
            bad = [e for e in self.errors if isinstance(e, SimViolation)]
            raise (bad or self.errors)[0]


def point(where='workload'):
    s = core.SIM
    if s is not None and s.active:
        s.point(where)


def source_series(data, meta, fail_at=(), exc=InjectedError):
    """An in-memory series whose reads are pre-emptible and can fail."""
    from hexrd.core.imageseries.baseclass import ImageSeries
    return ImageSeries(SimAdapter(data, meta, fail_at, exc))


class SimAdapter:
    """duck-typed image series adapter"""

    def __init__(self, data, meta, fail_at=(), exc=InjectedError):
        self._d = data
        self._m = meta
        self.fail_at = set(fail_at)
        self.exc = exc
        self.reads = []
        self.failures = 0
        self.resident = False   # hand out the stored frame itself

    def __getitem__(self, key):
        point('source-read')
        i = key if isinstance(key, (int, np.integer)) else (key[0] if isinstance(key, tuple) else None)
        self.reads.append(i)
        if i in self.fail_at:
            self.failures += 1
            raise self.exc(f'simulated failure reading frame {i}')
        r = self._d[key] if self.resident else self._d[key].copy()
        point('source-read-end')
        return r

    def get_region(self, i, r):
        return self[i][r[0][0]:r[0][1], r[1][0]:r[1][1]]

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        from hexrd.core.imageseries.imageseriesiter import ImageSeriesIterator
        return ImageSeriesIterator(self)

    @property
    def dtype(self):
        return self._d.dtype

    @property
    def shape(self):
        return self._d.shape[1:]

    @property
    def metadata(self):
        return self._m

    def option_values(self):
        return {}

    def set_option(self, k, v):
        raise KeyError(k)


def threshold_model(data, thr):
    out = data.copy()
    out[~(data > thr)] = 0
    return out


# ---- Eiger stream files -------------------------------------------------
def _lz4(raw):
    """literal-only LZ4 in the framing the detector uses"""
    import struct
    n = len(raw)
    b = bytearray([min(n, 15) << 4])
    if n >= 15:
        m = n - 15
        while m >= 255:
            b.append(255)
            m -= 255
        b.append(m)
    b += raw
    return struct.pack('>QI', n, max(n, 1)) + struct.pack('>I', len(b)) + bytes(b)


def eiger_entry(g, frame, comp):
    import io
    import struct
    from scipy.sparse import csr_array, save_npz
    g['compression_type'] = comp
    g['dtype'] = str(frame.dtype)
    g['shape'] = np.array(frame.shape)
    g['elem_size'] = frame.dtype.itemsize
    if comp == 'csrnpz':
        f = io.BytesIO()
        save_npz(f, csr_array(frame))
        raw = f.getvalue()
        raw = struct.pack('>Q', len(raw)) + raw
    else:
        raw = _lz4(frame.tobytes())
    g['data'] = np.void(raw)


def write_eiger(path, version, frames, second, comp, meta):
    import h5py
    with h5py.File(path, 'w') as f:
        d = f.create_group('data')
        for i in range(len(frames)):
            if version == 1:
                eiger_entry(d.create_group(str(i)), frames[i], comp)
            else:
                eiger_entry(d.create_group(f'{i}/threshold_1'), frames[i], comp)
                eiger_entry(d.create_group(f'{i}/threshold_2'), second[i], comp)
        m = f.create_group('metadata')
        for k, v in meta.items():
            if isinstance(v, dict):
                for kk, vv in v.items():
                    m[f'{k}/{kk}'] = vv
            else:
                m[k] = v
