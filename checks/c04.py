"""C04 file-backed image series: reading frame i gives frame i whatever other readers do."""
import errno
import os

import numpy as np
import yaml

from . import common as C
from sim import core, disk

TECHNIQUE = 'seeded reader interleavings, access orders, directory orders and read faults against an array model'
QUICK, THOROUGH = 1200, 60000
RULE = ('Each run builds 1-3 data sets on disk (raw image, HDF5 dataset, single- or multi-frame image files, function series), opens 1-4 series on them, some wrapped in 1-2 '
        'layers of processing (flips, dark, rectangle, add, added rows/columns, frame lists), then 1-5 simulated threads read whole frames, regions, fancy indices, and step '
        'interleaved iterators; the directory listing is shuffled; in half of the runs one or two reads fail or come up short.')
REAL = ['hexrd.core.imageseries load.rawimage, load.hdf5, load.imagefiles, load.function, process, baseclass, imageseriesiter', 'fabio, h5py, numpy file reading on real files']
STUB = ['thread scheduler and locks (simulator)', 'file-system reads below the scratch directory pass the LD_PRELOAD fault seam', 'order of os.scandir/os.listdir']
ASSUME = ['HDF5 and fabio calls are atomic with respect to thread switches', 'the HDF5 library itself recovers from a failed read: it does not for contiguous datasets (its sieve buffer keeps a half-read block) or when a file shrinks under it, so those get no read faults; nor do 32-bit TIFFs, for which fabio retries with another decoder']


def setup():
    global imageseries, h5py, P, fabio
    import h5py
    import fabio
    import fabio.tifimage, fabio.edfimage, fabio.numpyimage, fabio.cbfimage    # noqa
    from hexrd.core import imageseries
    from hexrd.core.imageseries import process, baseclass, imageseriesiter
    from hexrd.core.imageseries.load import rawimage, hdf5, imagefiles, function
    P = process.ProcessedImageSeries
    core.watch([m.__file__ for m in (rawimage, hdf5, imagefiles, function, process, baseclass, imageseriesiter)])
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        # make fabio load its plug-ins once
        fabio.tifimage.TifImage(data=np.ones((3, 4), np.uint16)).write(os.path.join(d, 'a.tif'))
        with fabio.open(os.path.join(d, 'a.tif')) as f:
            f.data


def native(dt):
    return np.dtype(dt).newbyteorder('=')


def eq(ctx, got, want, sig, what):
    got = dense(got)
    C.require_same(ctx, got.astype(native(got.dtype)), want.astype(native(want.dtype)), sig, what)


def shuffled_listing(ch):
    real_scan, real_list = os.scandir, os.listdir
    import random
    r = random.Random(ch.bits())

    class Scan:
        def __init__(self, path='.'):
            with real_scan(path) as it:
                self.e = sorted(it, key=lambda x: x.name)
            r.shuffle(self.e)
            self.i = iter(self.e)

        def __iter__(self):
            return self.i

        def __next__(self):
            return next(self.i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def lst(path='.'):
        x = sorted(real_list(path))
        r.shuffle(x)
        return x
    os.scandir, os.listdir = Scan, lst


RAW = {'uint8': ('i', 1, False), 'int8': ('i', 1, True), 'uint16': ('i', 2, False), 'int16': ('i', 2, True), 'uint32': ('i', 4, False), 'int32': ('i', 4, True),
       'float32': ('f', 4, True), 'float64': ('d', 8, True), 'int64': ('i', 8, True)}


def make_raw(ch, ctx, k):
    data = C.gen_frames(ch, max_n=ch.pick([6, 3, 14]), max_dim=ch.pick([8, 3, 25]), dtypes=list(RAW))
    if ch.chance(0.1):
        # bool frames
        data = data > 5
        typ = ('b', 1, False)
    else:
        typ = RAW[str(data.dtype)]
    big = ch.chance(0.4)
    want = data.astype(data.dtype.newbyteorder('>' if big else '<'))
    skip = ch.pick([0, 8, 1, 37, 4096])
    p = os.path.join(ctx.tmp, f'raw{k}.bin')
    with open(p, 'wb') as f:
        f.write(bytes(range(256)) * 16 if skip == 4096 else bytes(range(1, skip + 1)))
        f.write(want.tobytes())
    y = os.path.join(ctx.tmp, f'raw{k}.yml')
    with open(y, 'w') as f:
        yaml.safe_dump(dict(filename=p, scalar=dict(type=typ[0], bytes=typ[1], signed=typ[2], endian='big' if big else 'little'),
                            shape='%d %d' % want.shape[1:], skip=skip), f)
    ctx.say('raw', want.shape, want.dtype, 'skip', skip)
    return lambda: imageseries.open(y, 'raw-image'), want, False


def make_h5(ch, ctx, k):
    data = C.gen_frames(ch, max_n=ch.pick([6, 3, 14]), max_dim=ch.pick([8, 3, 25]))
    two = ch.chance(0.25)
    p = os.path.join(ctx.tmp, f'h{k}.h5')
    kw = {}
    lay = ch.pick(['gzip', 'chunk', 'plain'])
    if lay != 'plain':
        kw['chunks'] = tuple(max(1, s // 2) for s in data.shape[1:]) if two else (1,) + data.shape[1:]
    if lay == 'gzip':
        kw['compression'] = 'gzip'
    name = ch.pick(['images', 'data'])
    path = ch.pick(['a', 'a/b/c'])
    if two:
        data = data[:1]
    with h5py.File(p, 'w') as h:
        g = h.create_group(path)
        g.create_dataset(name, data=data[0] if two else data, **kw)
        if ch.chance(0.5):
            g.attrs['note'] = 'x'
    own = ch.chance(0.3)
    ctx.say('hdf5', data.shape, data.dtype, '2d' if two else '3d', lay, 'handle' if own else 'path')
    okw = {} if name == 'images' else {'dataname': name}

    def opener():
        src = h5py.File(p, 'r') if own else p
        return imageseries.open(src, 'hdf5', path=path, **okw)
    return opener, data, '2d' if two else ('plain' if lay == 'plain' else False)


def make_files(ch, ctx, k):
    multi = ch.chance(0.5)
    d = os.path.join(ctx.tmp, f'img{k}')
    os.mkdir(d)
    shape = (ch.between(5, 11), ch.between(5, 11))   # fabio squeezes degenerate shapes
    dt = ch.pick(['uint16', 'uint8', 'int32', 'float32', 'uint32'])
    nf = ch.between(1, 6)
    names = ['s_%d', 's_%03d', 'S%dx', 'b%d']
    pat = names[ch.below(4)]
    start = ch.pick([0, 7, 98])
    fmt = 'edf' if multi and ch.chance(0.4) else 'tif'
    if not multi:
        fmt = ch.pick(['tif', 'edf', 'npy', 'tif'])
    files = []
    for j in range(nf):
        if multi:
            cnt = ch.between(1, 5)
        else:
            cnt = 1
        fr = C.gen_frames(ch, n=cnt, shape=shape, dtypes=[dt])
        fr = fr + np.asarray(j % 3, fr.dtype) if dt != 'float32' else fr
        files.append([os.path.join(d, pat % (start + j) + '.' + fmt), fr])
    globs = '*.' + fmt
    if not multi and nf > 2 and ch.chance(0.3):
        globs = f'*[02468]{"x" if pat == "S%dx" else ""}.{fmt} *[13579]{"x" if pat == "S%dx" else ""}.{fmt}'
    order = list(range(nf))
    for i in range(nf - 1, 0, -1):
        j = ch.below(i + 1)
        order[i], order[j] = order[j], order[i]
    for i in order:
        p, fr = files[i]
        if fmt == 'edf':
            im = fabio.edfimage.EdfImage(data=fr[0])
            for x in fr[1:]:
                im.append_frame(data=x)
            im.write(p)
        elif fmt == 'npy':
            np.save(p, fr[0])
        else:
            import tifffile
            tifffile.imwrite(p, fr if len(fr) > 1 else fr[0], photometric='minisblack')
    files.sort(key=lambda x: x[0])
    # other files that the globs do not match
    with open(os.path.join(d, 'notes.txt'), 'w') as f:
        f.write('x')
    opts = {}
    empty = maxf = 0
    least = min(len(x[1]) for x in files)
    if multi and least > 1 and max(len(x[1]) for x in files) > 1:
        empty = ch.below(min(least, 3))
        if empty:
            opts['empty-frames'] = empty
        if ch.chance(0.4):
            maxf = ch.between(1, 4)
            opts['max-file-frames'] = maxf
    frames = []
    for p, fr in files:
        n = len(fr) - empty
        if maxf:
            n = min(n, maxf)
        frames += [x for x in fr[empty:empty + n]]
    want = np.array(frames)
    if ch.chance(0.3):
        t = ch.between(1, len(want) + 2)
        opts['max-total-frames'] = t
        want = want[:t]
    if ch.chance(0.3):
        dt2 = {'uint8': 'uint16', 'uint16': 'int32', 'int32': 'int64', 'uint32': 'float64', 'float32': 'float64'}[dt]
        opts['dtype'] = dt2
        want = want.astype(dt2)
    y = {'image-files': {'directory': d, 'files': globs}, 'options': opts, 'meta': {'panel': 'x'}}
    text = yaml.safe_dump(y)
    byname = ch.chance(0.6)
    if byname:
        yn = os.path.join(ctx.tmp, f'img{k}.yml')
        with open(yn, 'w') as f:
            f.write(text)
    ctx.say('image-files', fmt, [len(x[1]) for x in files], shape, dt, opts)
    # fabio falls back to another decoder, which differs for 32-bit images, when reading a TIFF fails
    return lambda: imageseries.open(yn if byname else text, 'image-files'), want, 'plain' if fmt == 'tif' and dt not in ('uint8', 'uint16') else False


def make_function(ch, ctx, k):
    data = C.gen_frames(ch, max_n=6, max_dim=8)
    bad = {}
    nth = ch.below(12, 'f') if ch.chance(0.4, 'f') else None
    exc = ch.pick([IndexError, ValueError, OSError, RuntimeError, KeyError], 'f')
    state = {'n': 0, 'fired': 0}

    def func(i):
        C.point('function-frame')
        if state.get('armed'):
            state['n'] += 1
            if state['n'] - 1 == nth:
                state['fired'] += 1
                ctx.fault('source-read-error')
                raise exc('simulated failure')
        return data[i].copy()
    ctx.say('function', data.shape, data.dtype, 'fail at call', nth, exc.__name__ if nth is not None else '')
    return lambda: imageseries.open(None, 'function', func=func, num_frames=len(data)), data, state


FLIPS = {'y': lambda a: a[:, ::-1], 'v': lambda a: a[:, ::-1], 'x': lambda a: a[::-1], 'h': lambda a: a[::-1], 'vh': lambda a: a[::-1, ::-1], 'hv': lambda a: a[::-1, ::-1],
         'r180': lambda a: a[::-1, ::-1], 't': lambda a: a.T, 'T': lambda a: a.T, 'ccw90': lambda a: np.rot90(a, 1), 'r90': lambda a: np.rot90(a, 1),
         'cw90': lambda a: np.rot90(a, -1), 'r270': lambda a: np.rot90(a, -1), 'none': lambda a: a}


def gen_region(r, h, w):
    a, b = sorted(int(x) for x in r.integers(0, h + 1, 2))
    c, d = sorted(int(x) for x in r.integers(0, w + 1, 2))
    if a == b:
        a, b = 0, h
    if c == d:
        c, d = 0, w
    return ((a, b), (c, d))


def wrap(ch, ims, want, regions):
    """a processed view and the frames it should give"""
    r = np.random.default_rng(ch.bits())
    kw = {}
    frames = list(want)
    if ch.chance(0.4):
        fl = [int(x) for x in r.integers(0, len(frames), int(r.integers(1, 6)))]
        kw['frame_list'] = fl
        frames = [frames[i] for i in fl]
    ops = []
    for _ in range(1 + ch.below(3)):
        op = ch.pick(['flip', 'rectangle', 'dark', 'add', 'add-row', 'add-column'])
        h, w = frames[0].shape
        if op == 'rectangle' and not ops and not regions:
            op = 'flip'
        if op == 'flip':
            v = ch.pick(list(FLIPS))
            frames = [FLIPS[v](f) for f in frames]
        elif op == 'rectangle':
            v = gen_region(r, h, w)
            frames = [f[v[0][0]:v[0][1], v[1][0]:v[1][1]] for f in frames]
        elif op == 'dark':
            v = np.round(r.uniform(0, 60, (h, w)))
            frames = [np.where(f - v < 0, 0, f - v) for f in frames]
        elif op == 'add':
            v = float(r.integers(-5, 6))
            frames = [(f if f.dtype.kind == 'f' else f.astype(np.float32)) + v for f in frames]
        else:
            ax = 0 if op == 'add-row' else 1
            v = int(r.integers(0, frames[0].shape[ax] + 1))
            z = np.zeros((1, w) if ax == 0 else (h, 1), frames[0].dtype)
            frames = [np.concatenate([f[:v], z, f[v:]], 0) if ax == 0 else np.concatenate([f[:, :v], z, f[:, v:]], 1) for f in frames]
        ops.append((op, v))
    # built directly on the series or on its region method (rectangle first)
    return P(ims, ops, **kw), np.array(frames), [o for o, _ in ops] + (['frame_list'] if kw else [])


def dense(x):
    return x.toarray() if hasattr(x, 'toarray') else np.asarray(x)


def run(ch, ctx):
    shuffled_listing(ch)
    sets = []
    for k in range(ch.between(1, 3)):
        mk = ch.pick([make_raw, make_h5, make_files, make_function], 'w', [4, 2, 3, 1])
        sets.append(mk(ch, ctx, k))
    h5 = any('h5' in o.__qualname__ for o, _, _ in sets)
    # no read faults where a third-party reader is known not to survive them (see ASSUME)
    sieve = any(s in ('2d', 'plain') for _, _, s in sets)
    series = []
    for j in range(ch.between(1, 4)):
        op, want, state = sets[ch.below(len(sets))]
        ims = op()
        what = 'plain'
        base = series[ch.below(len(series))] if series and ch.chance(0.4) else None
        if base is not None and not base[3]:
            ims, want, state = base[0], base[1], base[2]     # two users of one series
        for _ in range(ch.pick([0, 1, 2])):
            ims, want, what = wrap(ch, ims, want, state != '2d' or what != 'plain')
        series.append((ims, want, state, what != 'plain'))
        ctx.say('series', j, want.shape, want.dtype, what)
        ctx.require(len(ims) == len(want), 'length', f'series {j}: {len(ims)} frames, {len(want)} in the data')
        ctx.require(tuple(ims.shape) == want.shape[1:], 'shape', f'series {j}: shape {ims.shape}, data {want.shape[1:]}')
        ctx.require(native(ims.dtype) == native(want.dtype), 'dtype', f'series {j}: dtype {ims.dtype}, data {want.dtype}')
    nthreads = ch.between(1, 5)
    plans = [[(ch.below(len(series)), ch.pick(['frame', 'region', 'fancy', 'iter', 'two-iters', 'frame', 'frame']), ch.bits()) for _ in range(1 + ch.below(5))] for _ in range(nthreads)]
    for t, p in enumerate(plans):
        ctx.say('reader', t, [(a, b) for a, b, _ in p])
    armed = []
    if not sieve and ch.chance(0.5, 'f'):
        for _ in range(1 + ch.below(2, 'f')):
            cls = ch.pick([disk.READ, disk.RD, disk.OPEN], 'f')
            act = ch.pick([disk.FAIL, disk.EOF, disk.INTR, disk.SHORT], 'f', [4, 3, 1, 1])
            if act in (disk.EOF, disk.SHORT) and cls != disk.READ or (h5 and act == disk.EOF):
                act = disk.FAIL
            armed.append((cls, 1 + ch.below(ch.pick([30, 5, 100], 'f'), 'f'), act, errno.EIO))
        ctx.say('faults', armed)
    fails = []

    def injected():
        return disk.fired() + sum(s['fired'] for _, _, s in sets if isinstance(s, dict))

    def read(k, op, seed):
        ims, want, state, view = series[k]
        if op == 'region' and state == '2d' and not view:
            op = 'frame'     # regions of a 2-d dataset are refused
        r = np.random.default_rng(seed)
        i = int(r.integers(len(want)))
        h, w = want.shape[1:]
        if op == 'frame':
            eq(ctx, ims[i], want[i], 'frame-mismatch', f'series {k} frame {i}')
        elif op == 'region':
            reg = gen_region(r, h, w)
            eq(ctx, ims.get_region(i, reg), want[i][reg[0][0]:reg[0][1], reg[1][0]:reg[1][1]], 'region-mismatch', f'series {k} frame {i} region {reg}')
        elif op == 'fancy':
            if isinstance(ims, P) or not isinstance(ims._adapter.__class__.__name__, str) or 'Function' in ims._adapter.__class__.__name__:
                return
            rows, cols = r.integers(0, h, (2, 2)), r.integers(0, w, (2, 2))
            eq(ctx, ims[i, rows, cols], want[i][rows, cols], 'fancy-mismatch', f'series {k} frame {i}')
        elif op == 'iter':
            got = []
            for j, f in enumerate(ims):
                ctx.require(j < len(want), 'iter-count', f'series {k}: iterator gives more than {len(want)} frames')
                eq(ctx, f, want[j], 'iter-mismatch', f'series {k}: frame {j} of an iterator')
                got.append(f)
            ctx.require(len(got) == len(want), 'iter-count', f'series {k}: {len(got)} frames from an iterator, {len(want)} in the data')
            eq(ctx, np.array(got), want, 'kept-frames-changed', f'series {k}: frames kept from an iterator')
        else:
            its = [iter(ims), iter(ims)]
            pos = [0, 0]
            for _ in range(int(r.integers(1, 2 * len(want) + 3))):
                q = int(r.integers(2))
                try:
                    f = next(its[q])
                except StopIteration:
                    ctx.require(pos[q] == len(want), 'iter-count', f'series {k}: iterator ended after {pos[q]} of {len(want)} frames')
                    continue
                ctx.require(pos[q] < len(want), 'iter-count', f'series {k}: iterator gives more than {len(want)} frames')
                eq(ctx, f, want[pos[q]], 'iter-mismatch', f'series {k}: frame {pos[q]} of iterator {q}')
                pos[q] += 1

    def client(t):
        for k, op, seed in plans[t]:
            try:
                read(k, op, seed)
            except core.SimViolation:
                raise
            except Exception as e:
                if not injected():
                    raise
                fails.append((t, k, op, type(e).__name__))

    def main():
        for p in armed:
            disk.plan(*p)
        for _, _, s in sets:
            if isinstance(s, dict):
                s['armed'] = True
        disk.on(bool(armed))
        th = C.Threads()
        for t in range(nthreads):
            th.go(client, t)
        th.join()
        disk.on(False)
        n = injected()
        for a, nm in disk.ACT.items():
            if disk.fired(a):
                ctx.fault(nm, disk.fired(a))
        if fails:
            ctx.probe('reader-saw-error', len(fails))
        ctx.require(len(fails) <= n, 'error-remembered', f'{n} transient faults, but {len(fails)} reads failed: {fails}')
        disk.unplan()
        for _, _, s in sets:
            if isinstance(s, dict):
                s['armed'] = False
        for k, (ims, want, _, _) in enumerate(series):
            for i in range(len(want)):
                eq(ctx, ims[i], want[i], 'frame-after-error' if fails else 'frame-mismatch', f'series {k} frame {i} after the readers')

    disk.clear()
    ctx.sim(main)
    ctx.nontrivial = True
