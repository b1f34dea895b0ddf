"""C02 concurrent readers of a frame cache."""
import errno
import os

import numpy as np
import yaml

from . import common as C
from sim import core, disk

TECHNIQUE = 'seeded reader interleavings and transient read faults against a frame model'
QUICK, THOROUGH = 1500, 60000
RULE = ('Each run saves one or two frame caches (npz, HDF5 style or YAML pointing at npz), opens 1-4 series on them and lets 2-5 simulated reader threads '
        'make whole-frame, region, row/column, iterator and rectangle-view reads, starting at the first access, under one seeded schedule; half of the runs '
        'inject up to two open/read faults (EIO, early EOF, EINTR, short read) at seeded operations of the load.')
REAL = ['hexrd.core.imageseries.load.framecache, baseclass, process', 'ThreadPoolExecutor on real threads', 'numpy npz, h5py/HDF5 on real files']
STUB = ['thread scheduler, locks, queues and clock (simulator)', 'file-system calls below the scratch directory pass the LD_PRELOAD fault seam', 'processor count']
ASSUME = ['numba-compiled kernels and HDF5 calls are atomic with respect to thread switches']


def setup():
    global imageseries, h5py, process
    import h5py
    from hexrd.core import imageseries
    from hexrd.core.imageseries import process, save, baseclass, imageseriesiter
    from hexrd.core.imageseries.load import framecache
    from hexrd.core import matrixutil
    core.watch([framecache.__file__, baseclass.__file__, imageseriesiter.__file__, process.__file__])
    for dt in C.DTYPES:
        matrixutil.extract_ijv(np.zeros((2, 2), dt), 0, np.zeros(4, np.uint16), np.zeros(4, np.uint16), np.zeros(4, dt))
        b = np.zeros((4, 2), np.uint16)
        matrixutil.extract_ijv(np.zeros((2, 2), dt), 0, b[:, 0], b[:, 1], np.zeros((4, 1), dt)[:, 0])


def dense(x):
    return x.toarray() if hasattr(x, 'toarray') else np.asarray(x)


def run(ch, ctx):
    C.set_cpus(ch.pick([2, 4, 1, 8]))
    nfiles = 1 + ch.below(2)
    files = []
    for k in range(nfiles):
        data = C.gen_frames(ch, max_n=ch.pick([6, 2, 12]), max_dim=ch.pick([9, 3, 20]))
        style = ch.pick(['npz', 'fch5', 'yml'])
        name = os.path.join(ctx.tmp, f'f{k}.' + ('fch5' if style == 'fch5' else 'npz'))
        handle = False
        src = C.source_series(data, C.gen_meta(ch, len(data)))
        kw = {}
        okw = {}
        if style == 'fch5' and ch.chance(0.25):
            handle = True
            with h5py.File(name, 'w') as h:
                imageseries.write(src, h, 'frame-cache', threshold=0, style='fch5', path='a/b')
            oname = h5py.File(name, 'r')
            okw['path'] = 'a/b'
        else:
            imageseries.write(src, name, 'frame-cache', threshold=0, style='npz' if style == 'yml' else style)
            oname = name
        if style == 'yml':
            oname = os.path.join(ctx.tmp, f'f{k}.yml')
            with open(oname, 'w') as f:
                yaml.safe_dump({'data': {'file': os.path.basename(name) if ch.chance(0.5) else name, 'dtype': str(data.dtype), 'nframes': len(data), 'shape': list(data.shape[1:])}, 'meta': {}}, f)
        files.append((oname, style, okw, C.threshold_model(data, 0)))
        ctx.say('file', k, style, 'handle' if handle else 'path', data.shape, data.dtype)
    series = []
    for j in range(1 + ch.below(4)):
        oname, style, okw, want = files[ch.below(nfiles)]
        mw = ch.pick([None, 1, 2, 5])
        kw = dict(okw)
        if mw:
            kw['max_workers'] = mw
        series.append((imageseries.open(oname, 'frame-cache', style=style, **kw), want))
    nthreads = 2 + ch.below(4)
    plans = []
    for t in range(nthreads):
        ops = []
        for _ in range(1 + ch.below(4)):
            ops.append((ch.below(len(series)), ch.pick(['frame', 'region', 'rowcol', 'rows', 'iter', 'rect', 'frame']), ch.bits()))
        plans.append(ops)
        ctx.say('reader', t, [(a, b) for a, b, _ in ops])
    faulty = ch.chance(0.5, 'f')
    armed = []
    if faulty:
        for _ in range(1 + ch.below(2, 'f')):
            cls = ch.pick([disk.READ, disk.RD, disk.OPEN], 'f')
            act = ch.pick([disk.FAIL, disk.EOF, disk.INTR, disk.SHORT], 'f', [4, 3, 1, 1])
            if cls != disk.READ and act in (disk.EOF, disk.SHORT):
                act = disk.FAIL
            armed.append((cls, 1 + ch.below(4 if cls == disk.OPEN else ch.pick([80, 8, 20], 'f'), 'f'), act, ch.pick([errno.EIO, errno.ENOMEM], 'f')))
        ctx.say('faults', armed)
    fails = []

    def read(k, op, seed):
        ims, want = series[k]
        r = np.random.default_rng(seed)
        i = int(r.integers(len(want)))
        h, w = want.shape[1:]
        if op == 'frame':
            C.require_same(ctx, ims[i], want[i], 'frame-mismatch', f'series {k} frame {i}')
        elif op in ('region', 'rect'):
            a, b = sorted(int(x) for x in r.integers(0, h + 1, 2))
            c, d = sorted(int(x) for x in r.integers(0, w + 1, 2))
            if a == b:
                a, b = 0, h
            if c == d:
                c, d = 0, w
            reg = ((a, b), (c, d))
            if op == 'region':
                got = ims.get_region(i, reg)
            else:
                got = process.ProcessedImageSeries(ims, [('rectangle', reg)])[i]
            C.require_same(ctx, got, want[i][a:b, c:d], 'region-mismatch', f'series {k} frame {i} region {reg}')
        elif op == 'rowcol':
            shp = (int(r.integers(1, 4)), int(r.integers(1, 4)))
            rows, cols = r.integers(0, h, shp), r.integers(0, w, shp)
            C.require_same(ctx, dense(ims[i, rows, cols]), want[i][rows, cols], 'rowcol-mismatch', f'series {k} frame {i}', dtype=False)
        elif op == 'rows':
            rows = r.integers(0, h, int(r.integers(1, 4)))
            C.require_same(ctx, dense(ims[i, rows]), want[i][rows], 'rows-mismatch', f'series {k} frame {i}', dtype=False)
        else:
            got = list(ims)
            ctx.require(len(got) == len(want), 'iter-count', f'{len(got)} frames from iterator, {len(want)} saved')
            C.require_same(ctx, np.array(got), want, 'iter-mismatch', f'series {k}')

    def client(t):
        for k, op, seed in plans[t]:
            try:
                read(k, op, seed)
            except core.SimViolation:
                raise
            except Exception as e:
                if not armed or not disk.fired():
                    raise
                fails.append((t, k, op, type(e).__name__))

    def main():
        for p in armed:
            disk.plan(*p)
        disk.on(bool(armed))
        th = C.Threads()
        for t in range(nthreads):
            th.go(client, t)
        th.join()
        disk.on(False)
        nf = 0
        for a, nm in disk.ACT.items():
            if disk.fired(a):
                ctx.fault(nm, disk.fired(a))
                nf += disk.fired(a)
        hard = nf
        if fails:
            ctx.probe('reader-saw-error', len(fails))
        ctx.require(len(fails) <= hard, 'error-remembered', f'{hard} transient faults, but {len(fails)} reads failed: {fails}')
        disk.unplan()
        # the error has gone
        for k, (ims, want) in enumerate(series):
            for i in range(len(want)):
                C.require_same(ctx, ims[i], want[i], 'frame-after-error' if fails else 'frame-mismatch', f'series {k} frame {i} after the readers')

    disk.clear()
    ctx.sim(main)
