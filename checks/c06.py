"""C06 pickling and handle lifetime of image series."""
import copy
import errno
import gc
import os
import pickle

import numpy as np
import yaml

from . import common as C
from . import c04
from sim import core, disk

TECHNIQUE = 'seeded histories of open/read/pickle/hop/close/drop/collect over shared files, threads and simulated worker processes against an array model'
QUICK, THOROUGH = 900, 40000
RULE = ('Each run writes 1-3 data sets, opens 1-5 series on them (array, frame cache of every style, HDF5 by path, own handle or caller handle, image files, Eiger streams, processed views, '
        'omega series), and 1-3 simulated threads run histories of reads, in-process pickle and deepcopy hops, hops through fork or spawn worker processes, metadata edits, '
        'closes, drops (also in reference cycles) and collections; finally handles and files are checked.')
REAL = ['hexrd.core.imageseries adapters, processed and omega series', 'pickle, copy, gc, h5py, fabio on real files', 'worker processes are real forked processes; start method spawn is emulated by resetting module state']
STUB = ['thread scheduler and locks', 'process pool dispatch and completion order']
ASSUME = ['a spawned worker is emulated by a forked one whose hexrd module globals are reset to their import-time values']


def setup():
    global imageseries, h5py, hdf5, ImageSeries, OmegaImageSeries, framecache, PPE
    c04.setup()
    import h5py
    from concurrent.futures import ProcessPoolExecutor as PPE
    from hexrd.core import imageseries
    from hexrd.core.imageseries.load import hdf5, framecache, eiger_stream_v1, eiger_stream_v2, array
    from hexrd.core.imageseries import omega
    from hexrd.core.imageseries.baseclass import ImageSeries
    from hexrd.core.imageseries.omega import OmegaImageSeries
    core.watch([m.__file__ for m in (hdf5, framecache, eiger_stream_v1, eiger_stream_v2, array, omega)])
    from sim import procs
    procs.snapshot()


def full_check(ims, frames, meta, region):
    """None, or (signature, text) of the first difference"""
    if len(ims) != len(frames):
        return 'length', f'{len(ims)} frames, expected {len(frames)}'
    if tuple(ims.shape) != frames.shape[1:]:
        return 'shape', f'{ims.shape}, expected {frames.shape[1:]}'
    if c04.native(ims.dtype) != c04.native(frames.dtype):
        return 'dtype', f'{ims.dtype}, expected {frames.dtype}'
    if meta is not None and not C.meta_equal(dict(ims.metadata), meta):
        return 'metadata', f'{dict(ims.metadata)!r}, expected {meta!r}'
    for i in range(len(frames)):
        r = one_check(ims, frames, i, region)
        if r:
            return r
    return None


def one_check(ims, frames, i, region, how='frame'):
    if how == 'frame':
        got, want = ims[i], frames[i]
    elif how == 'region' and region:
        h, w = frames.shape[1:]
        r = ((h // 3, h - h // 4), (w // 4, w - w // 5))
        got, want = ims.get_region(i, r), frames[i][r[0][0]:r[0][1], r[1][0]:r[1][1]]
    elif how == 'fancy':
        h, w = frames.shape[1:]
        a, b = np.meshgrid(np.arange(0, h, 2), np.arange(0, w, 3), indexing='ij')
        got, want = ims[i, a, b], frames[i][a, b]
    else:
        for k, f in enumerate(ims):
            f = c04.dense(f)
            if not C.same(f.astype(c04.native(f.dtype)), frames[k].astype(c04.native(frames.dtype))):
                return 'frame', f'iterated frame {k}: {C.describe_diff(f, frames[k])}'
        if k + 1 != len(frames):
            return 'length', f'iterator gave {k + 1} frames of {len(frames)}'
        return None
    got = c04.dense(got)
    if not C.same(got.astype(c04.native(got.dtype)), want.astype(c04.native(want.dtype))):
        return 'frame', f'{how} {i}: {C.describe_diff(got, want)}'
    return None


def hop(blob, frames, meta, region, reload, again, proto):
    """in a worker: use the series, hand it back"""
    ims = pickle.loads(blob)
    bad = None
    if reload != 'no':
        bad = full_check(ims, frames, meta, region) if reload == 'all' else one_check(ims, frames, len(frames) - 1, region)
    out = pickle.dumps(ims, protocol=proto) if again else None
    del ims
    gc.collect()
    return bad, out


class S:
    """a series and what it must contain"""

    def __init__(self, ims, frames, meta, region, adapter=None, closable=False, files=()):
        self.ims, self.frames, self.meta, self.region = ims, frames, meta, region
        self.adapter, self.closable = adapter, closable
        self.open = True
        self.busy = False
        self.label = ''


def make(ch, ctx, k, handles):
    kind = ch.pick(['hdf5', 'framecache', 'array', 'files', 'eiger'], 'w', [5, 4, 1, 2, 2])
    if kind == 'files':
        op, want, st = c04.make_files(ch, ctx, k)
        return lambda: S(op(), want, None, True)
    p = os.path.join(ctx.tmp, f'd{k}')
    if kind == 'eiger':
        v = ch.between(1, 2)
        data = C.gen_frames(ch, max_n=4, dtypes=['uint16', 'uint32', 'uint8'])
        second = data // 2
        comp = ch.pick(['csrnpz', 'lz4'])
        meta = {'start': {'a': 3.5, 'n': 7}, 'vec': np.arange(3.0)}
        C.write_eiger(p + '.h5', v, data, second, comp, meta)
        setting = ch.pick(['threshold_1', 'threshold_2', 'man_diff']) if v == 2 else ''
        mult = ch.pick([1, 0.75, 2])
        frames = {'': data, 'threshold_1': data, 'threshold_2': second}.get(setting)
        if frames is None:
            frames = data - float(mult) * second
        how = ch.pick(['open', 'option'])
        ctx.say('eiger', v, data.shape, data.dtype, comp, setting)

        def op():
            if v == 1:
                ims = imageseries.open(p + '.h5', 'eiger-stream-v1')
            elif how == 'open':
                ims = imageseries.open(p + '.h5', 'eiger-stream-v2', threshold_setting=setting, multiplier=mult)
            else:
                ims = imageseries.open(p + '.h5', 'eiger-stream-v2')
                ims.set_option('threshold_setting', setting)
                ims.set_option('multiplier', mult)
            s = S(ims, frames, None, True)
            s.opts = ims.option_values() if v == 2 else None
            return s
        return op
    data = C.gen_frames(ch, max_n=5)
    meta = C.gen_meta(ch, len(data), nested=False)
    if kind == 'array':
        ctx.say('array', data.shape, data.dtype)
        return lambda: S(imageseries.open(None, 'array', data=data, meta=copy.deepcopy(meta)), data, None, True)
    if kind == 'framecache':
        style = ch.pick(['npz', 'fch5', 'yml'])
        src = imageseries.open(None, 'array', data=data, meta=copy.deepcopy(meta))
        thr = ch.pick([0, 5])
        frames = C.threshold_model(data, thr)
        fn = p + ('.h5' if style == 'fch5' else '.npz')
        imageseries.write(src, fn, 'frame-cache', style='fch5' if style == 'fch5' else 'npz', threshold=thr, cache_file=fn)
        st = style
        if style == 'yml':
            with open(p + '.yml', 'w') as f:
                yaml.safe_dump({'data': {'file': f'd{k}.npz', 'dtype': str(data.dtype), 'nframes': len(data), 'shape': list(data.shape[1:])}, 'meta': {'panel': 'p'}}, f)
            fn = p + '.yml'
        ctx.say('framecache', style, data.shape, data.dtype)
        return lambda: S(imageseries.open(fn, 'frame-cache', style=st), frames, None, True)
    two = ch.chance(0.25)
    if two:
        data = data[:1]
    kw = {} if ch.chance(0.5) else {'compression': 'gzip', 'chunks': data.shape[1:] if two else (1,) + data.shape[1:]}
    name = ch.pick(['images', 'data'])
    with h5py.File(p + '.h5', 'w') as h:
        g = h.create_group('a/b')
        g.create_dataset(name, data=data[0] if two else data, **kw)
        for a, b in meta.items():
            if not isinstance(b, dict):
                g.attrs[a] = b
    okw = {} if name == 'images' else {'dataname': name}
    ctx.say('hdf5', data.shape, data.dtype, '2d' if two else '3d', name)

    def op():
        how = ch.pick(['path', 'own', 'caller', 'caller'])
        kw = dict(okw, path='a/b')
        if how == 'path':
            fn = p + '.h5'
            if ch.chance(0.3):
                kw['close_when_finished'] = ch.chance(0.5)
        elif how == 'own':
            fn = h5py.File(p + '.h5', 'r')
        else:
            if p not in handles:
                handles[p] = (h5py.File(p + '.h5', 'r'), 'a/b/' + name, data[0] if two else data)
            fn = handles[p][0]
            kw['close_when_finished'] = False
        ctx.say('open', os.path.basename(p), how)
        ad = hdf5.HDF5ImageSeriesAdapter(fn, **kw)
        return S(ImageSeries(ad), data, None, not two, adapter=ad, closable=True)
    return op


def picklable_wrap(ch, s, ctx):
    ims, frames, what = c04.wrap(ch, s.ims, s.frames, s.region)
    ctx.say('  view', what)
    n = S(ims, frames, None, True)
    n.under = s
    return n


def run(ch, ctx):
    handles = {}
    series = []
    makers = [make(ch, ctx, k, handles) for k in range(ch.between(1, 3))]

    def take_meta(s):
        s.meta = copy.deepcopy(dict(s.ims.metadata))
        return s

    def body():
        for j in range(ch.between(1, 5)):
            s = makers[ch.below(len(makers))]()
            base = s
            if ch.chance(0.3):
                s = picklable_wrap(ch, s, ctx)
                base = None
            elif 'omega' in s.ims.metadata and ch.chance(0.4) and len(s.ims) == len(np.atleast_2d(s.ims.metadata['omega'])):
                o = OmegaImageSeries(s.ims)
                n = S(o, s.frames, None, s.region)
                n.omega = True
                s = n
                ctx.say('  omega series')
            take_meta(s)
            s.id = j
            series.append(s)
        pool = PPE(max_workers=ch.between(1, 3), mp_context=ctxm)
        T = C.Threads()
        nthreads = ch.between(1, 3)
        ids = [len(series)]
        for t in range(nthreads):
            T.go(client, t, pool, [(ch.pick(OPS, 'w', WT), ch.below(100), ch.bits()) for _ in range(ch.between(2, 7))], ids)
        T.join()
        for s in series:
            if s.open:
                r = full_check(s.ims, s.frames, s.meta, s.region)
                ctx.evals += 1
                if r:
                    ctx.fail('final-' + r[0], f'series {s.id}: {r[1]}')
        pool.shutdown()
        series.clear()

    import multiprocessing
    ctxm = multiprocessing.get_context(ch.pick(['fork', 'spawn']))
    OPS = ['read', 'check', 'pickle', 'deepcopy', 'worker', 'meta', 'close', 'drop', 'cycle-drop', 'collect', 'share', 'failed-open']
    WT = [4, 2, 4, 1, 3, 1, 2, 2, 1, 2, 1, 1]

    def bad(r, s, what):
        ctx.evals += 1
        if r:
            ctx.fail(f'{what}-{r[0]}', f'series {s.id} after {what}: {r[1]}')

    def adopt(s, ims, ids, what):
        n = S(ims, s.frames, copy.deepcopy(s.meta), s.region)
        n.id = ids[0]
        ids[0] += 1
        if getattr(s, 'opts', None):
            n.opts = s.opts
            ctx.require(ims.option_values() == s.opts, 'options', f'options after {what}: {ims.option_values()}, were {s.opts}')
        if getattr(s, 'omega', False):
            n.omega = True
            ctx.require(C.same(ims.omega, s.ims.omega) and ims.nwedges == s.ims.nwedges, 'omega', f'omega of series {s.id} differs after {what}')
        if s.adapter is not None and type(ims) is ImageSeries:
            n.closable = True
            n.adapter = getattr(ims, '_adapter', None)
            n.closable = n.adapter is not None
        series.append(n)
        return n

    def client(t, pool, plan, ids):
        for op, which, bits in plan:
            live = [s for s in series if s.open and not s.busy]
            if not live:
                if op == 'collect':
                    gc.collect()
                continue
            s = live[which % len(live)]
            ctx.say('T%d' % t, op, 'series', s.id)
            excl = op in ('close', 'drop', 'cycle-drop', 'meta')
            if excl and getattr(s, 'pins', 0):
                continue
            s.busy = excl
            s.pins = getattr(s, 'pins', 0) + 1
            try:
                if op == 'read':
                    bad(one_check(s.ims, s.frames, bits % len(s.frames), s.region, ['frame', 'region', 'fancy', 'iter'][(bits >> 8) % 4]), s, 'read')
                elif op == 'check':
                    bad(full_check(s.ims, s.frames, s.meta, s.region), s, 'check')
                elif op == 'pickle':
                    n = adopt(s, pickle.loads(pickle.dumps(s.ims, protocol=2 + bits % 4)), ids, 'pickling')
                    if bits >> 9 & 1:
                        bad(full_check(n.ims, n.frames, n.meta, n.region), n, 'pickle')
                elif op == 'deepcopy':
                    n = adopt(s, copy.deepcopy(s.ims), ids, 'copying')
                    if bits >> 9 & 1:
                        bad(full_check(n.ims, n.frames, n.meta, n.region), n, 'deepcopy')
                elif op == 'worker':
                    hops = 1 + (bits % 3 == 0)
                    blob = pickle.dumps(s.ims, protocol=2 + bits % 4)
                    for _ in range(hops):
                        b, blob = pool.submit(hop, blob, s.frames, s.meta, s.region, ['all', 'one', 'no'][(bits >> 5) % 3], True, 2 + (bits >> 8) % 4).result()
                        bad(b, s, 'worker')
                    if bits >> 11 & 1:
                        n = adopt(s, pickle.loads(blob), ids, 'worker hop')
                        bad(full_check(n.ims, n.frames, n.meta, n.region), n, 'return')
                    ctx.nontrivial = True
                elif op == 'share':
                    # several threads pickle one series at once
                    out = []
                    TT = C.Threads()
                    for _ in range(2):
                        TT.go(lambda: out.append(pickle.dumps(s.ims)))
                    TT.go(lambda: bad(one_check(s.ims, s.frames, 0, s.region), s, 'shared-read'))
                    TT.join()
                    for b in out:
                        n = pickle.loads(b)
                        bad(full_check(n, s.frames, s.meta, s.region), s, 'shared-pickle')
                        del n
                elif op == 'failed-open':
                    blob = pickle.dumps(s.ims)
                    core.SIM.nopreempt += 1
                    disk.clear()
                    disk.plan(disk.OPEN, bits % 2, disk.STICKY, [errno.EIO, errno.EMFILE, errno.EACCES][bits % 3])
                    disk.on()
                    try:
                        n = pickle.loads(blob)
                        ctx.say('opened')
                        bad(full_check(n, s.frames, s.meta, s.region) if disk.fired() == 0 else None, s, 'failed-open')
                    except OSError:
                        ctx.require(disk.fired(), 'spurious-error', 'unpickling failed without a fault')
                        ctx.probe('unpickling-failed')
                    finally:
                        if disk.fired():
                            ctx.fault('open-error')
                        disk.on(False)
                        n = None
                        core.SIM.nopreempt -= 1
                    bad(full_check(s.ims, s.frames, s.meta, s.region), s, 'after-failed-open')
                    bad(full_check(pickle.loads(blob), s.frames, s.meta, s.region), s, 'retried-open')
                elif op == 'meta':
                    s.ims.metadata['edited'] = bits % 1000
                    s.meta['edited'] = bits % 1000
                elif op == 'close' and s.closable and s.adapter is not None:
                    s.adapter.close()
                    s.open = False
                    ctx.probe('closed')
                    s.ims = s.adapter = None
                elif op == 'drop':
                    s.open = False
                    s.ims = s.adapter = None
                    ctx.probe('dropped')
                elif op == 'cycle-drop':
                    s.open = False
                    c = [s.ims, s.adapter]
                    c.append(c)
                    s.ims = s.adapter = None
                    del c
                    ctx.probe('dropped-in-cycle')
                elif op == 'collect':
                    gc.collect()
            finally:
                s.busy = False
                s.pins -= 1

    ctx.sim(body)
    gc.collect()
    for p, (h, name, data) in handles.items():
        ctx.evals += 1
        ctx.require(bool(h), 'caller-handle-closed', f'the caller-owned handle of {os.path.basename(p)} was closed')
        ctx.require(C.same(h[name][()], data), 'caller-handle-data', 'the caller-owned handle reads other data')
        h.close()
    # nothing is left open: every file can be opened for writing again
    for f in sorted(os.listdir(ctx.tmp)):
        if f.endswith('.h5'):
            ctx.evals += 1
            try:
                with h5py.File(os.path.join(ctx.tmp, f), 'r+'):
                    pass
            except OSError as e:
                ctx.fail('left-open', f'{f} is still open after every series was dropped')
