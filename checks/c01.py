"""C01 frame-cache save under every worker schedule."""
import os
from pathlib import Path

import numpy as np

from . import common as C
from sim import core
from sim.core import InjectedError

TECHNIQUE = 'seeded interleavings of the writer threads, with failing source frames, against a threshold model'
QUICK, THOROUGH = 600, 40000
RULE = ('Each run saves 1-3 series (random size, dtype, threshold, metadata, worker count, style npz/fch5, path or open HDF5 group) as frame caches '
        'under one seeded thread schedule, sometimes with a source frame that fails to read, and reads them back.')
REAL = ['hexrd.core.imageseries.save/load.framecache', 'concurrent.futures.ThreadPoolExecutor on real threads', 'numba kernel extract_ijv', 'h5py/HDF5, numpy npz, real files']
STUB = ['thread scheduler, locks, queues and clock (simulator)', 'processor count', 'source image series (in memory, pre-emptible, can fail)']
ASSUME = ['numba-compiled kernels and HDF5 calls are atomic with respect to thread switches', 'no NaN pixels']


def setup():
    global imageseries, h5py
    import h5py
    from hexrd.core import imageseries
    from hexrd.core.imageseries import save
    from hexrd.core.imageseries.load import framecache
    from hexrd.core import matrixutil
    from hexrd.core.utils import hdf5
    core.watch([save.__file__, framecache.__file__, hdf5.__file__])
    for dt in C.DTYPES:
        for thr in (1, 1.5):
            matrixutil.extract_ijv(np.zeros((2, 2), dt), thr, np.zeros(4, np.uint16), np.zeros(4, np.uint16), np.zeros(4, dt))
            b = np.zeros((4, 2), np.uint16)
            matrixutil.extract_ijv(np.zeros((2, 2), dt), thr, b[:, 0], b[:, 1], np.zeros((4, 1), dt)[:, 0])


def gen_thr(ch, data):
    k = ch.below(6)
    if k == 0:
        return 0
    v = np.unique(data)
    x = v[ch.below(len(v))]
    if k == 1:
        return int(x) if data.dtype.kind != 'f' else float(x)       # exactly a pixel value
    if k == 2:
        return float(x) / 2
    if k == 3:
        return -1
    if k == 4:
        return float(np.max(data))
    return 10


def check_read(ctx, ims, want, meta, where, nested_ok):
    n = len(want)
    ctx.require(len(ims) == n, 'frame-count', f'{where}: {len(ims)} frames, saved {n}')
    ctx.require(tuple(int(x) for x in ims.shape) == want.shape[1:], 'shape', f'{where}: {ims.shape}')
    ctx.require(np.dtype(ims.dtype) == want.dtype, 'dtype', f'{where}: {ims.dtype} saved {want.dtype}')
    for i in range(n):
        C.require_same(ctx, ims[i], want[i], 'frame-mismatch', f'{where}: frame {i}')
    if not nested_ok:
        meta = {k: v for k, v in meta.items() if not isinstance(v, dict)}
    got = dict(ims.metadata)
    ctx.require(C.meta_equal(got, meta), 'metadata', lambda: f'{where}: read {got} saved {meta}')


def run(ch, ctx):
    import copy
    C.set_cpus(ch.pick([2, 4, 1, 8, 16]))
    njobs = 1 + ch.below(3)
    jobs = []
    for j in range(njobs):
        big = ch.chance(0.02)
        if big:
            data = C.gen_frames(ch, max_n=2, shape=ch.pick([(70000, 1), (1, 70000)]), dtypes=['uint8'])
        else:
            data = C.gen_frames(ch, max_n=ch.pick([7, 2, 24]), max_dim=ch.pick([13, 3, 40]))
        style = ch.pick(['npz', 'fch5'])
        target = ch.pick(['path', 'path', 'pathobj', 'group', 'file']) if style == 'fch5' else ch.pick(['path', 'cachefile'])
        meta = C.gen_meta(ch, len(data), nested=True)
        thr = gen_thr(ch, data)
        mw = ch.pick([2, None, 1, 3, 5, 9, 40])
        fail = ch.below(len(data), 'f') if ch.chance(0.15, 'f') else None
        jobs.append((data, style, target, meta, thr, mw, fail, j if ch.chance(0.8) else 0))
        ctx.say('save', j, style, target, data.shape, data.dtype, 'thr', thr, 'workers', mw, 'fail', fail, sorted(meta))

    def one(j, job, tag):
        data, style, target, meta, thr, mw, fail, slot = job
        orig_meta = copy.deepcopy(meta)
        src = C.source_series(data.copy(), meta, () if fail is None else (fail,))
        kw = dict(threshold=thr, style=style)
        if mw is not None:
            kw['max_workers'] = mw
        okw = dict(style=style)
        omw = ch.pick([None, 1, 3])
        if omw:
            okw['max_workers'] = omw
        ext = '.npz' if style == 'npz' else '.fch5'
        name = os.path.join(ctx.tmp, f'{tag}{slot if target in ("path", "pathobj") else j}{ext}')
        h = None
        if target == 'pathobj':
            fname = oname = Path(name)
        elif target == 'cachefile':
            fname = os.path.join(ctx.tmp, f'{tag}{j}.yml')
            kw['cache_file'] = ch.pick([name, os.path.basename(name)])
            oname = name
        elif target in ('group', 'file'):
            name = os.path.join(ctx.tmp, f'{tag}g{j}.h5')
            h = h5py.File(name, 'w')
            h['other'] = np.arange(5)
            if target == 'group':
                fname = oname = h.create_group('state')
                if ch.chance(0.7):
                    kw['path'] = okw['path'] = 'images'
            else:
                fname = oname = h
                kw['path'] = okw['path'] = 'some/images'
        else:
            fname = oname = name
        err = None
        try:
            imageseries.write(src, fname, 'frame-cache', **kw)
        except Exception as e:
            err = e
        if fail is not None:
            ctx.fault('frame-read-error')
            ctx.require(err is not None, 'lost-error', f'frame {fail} could not be read, yet the save returned normally')
            ctx.require(isinstance(err, InjectedError), 'wrong-error', f'got {err!r} instead of the read error')
            if h:
                h.close()
            # again, healthy
            src._adapter.fail_at.clear()
            if h is None:
                imageseries.write(src, fname, 'frame-cache', **kw)
            else:
                return
        elif err is not None:
            raise err
        ctx.require(C.same(src._adapter._d, data), 'source-changed', 'saving changed the source frames')
        if h is not None:
            ctx.require(bool(h.id.valid), 'caller-handle-closed', 'the save closed the HDF5 file the caller had opened')
            C.require_same(ctx, h['other'][()], np.arange(5), 'other-data', 'unrelated dataset')
        ims = imageseries.open(oname, 'frame-cache', **okw)
        want = C.threshold_model(data, thr)
        check_read(ctx, ims, want, orig_meta, f'{style}/{target}', style == 'fch5')
        if ch.chance(0.15):
            # the same series once more: saving must not have consumed anything
            n2 = os.path.join(ctx.tmp, f'{tag}again{j}{ext}')
            imageseries.write(src, n2, 'frame-cache', **{k: v for k, v in kw.items() if k in ('threshold', 'style', 'max_workers')})
            check_read(ctx, imageseries.open(n2, 'frame-cache', style=style), want, orig_meta, f'{style} second save', style == 'fch5')
        if h is not None:
            h.close()

    together = njobs > 1 and ch.chance(0.3) and len({(x[1], x[7]) for x in jobs}) == njobs

    def main():
        if together:
            ctx.probe('concurrent-saves')
            t = C.Threads()
            for j, job in enumerate(jobs):
                t.go(one, j, job, 'a')
            t.join()
        else:
            for j, job in enumerate(jobs):
                one(j, job, 'a')
    ctx.sim(main)
