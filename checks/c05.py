"""C05 failed or interrupted image-series saves."""
import errno
import os

import numpy as np

from . import common as C
from sim import core, disk

TECHNIQUE = 'seeded crash points and disk faults at any file operation of a save, checked by reading back in a fresh process'
LEVEL = 'exploration'
QUICK, THOROUGH = 1400, 60000
RULE = ('Each run saves one series (npz or HDF5-style frame cache, HDF5 format; to a path, over an older file or into an open HDF5 file) in a forked process on the fault-injecting '
        'disk: first cleanly to count its file operations, then with one seeded fault plan (kill before or in the middle of operation k, operation k failing once or for good with '
        'ENOSPC/EIO/EDQUOT, short writes, EINTR); a second fresh process reads what is left; then the save is repeated on the healthy disk, in the process that failed or a new one.')
REAL = ['hexrd.core.imageseries.save and load.framecache/hdf5', 'numpy zip writer, h5py/HDF5, hdf5plugin on real files', 'process kill by _exit inside the failing system call']
STUB = ['file-system calls below the scratch directory pass the LD_PRELOAD fault seam', 'processor count', 'thread scheduler while saving']
ASSUME = ['a kill keeps every completed write and possibly some leading pages (4096-byte file blocks; for npz any prefix) of the one in progress (no power loss: the library does not claim fsync durability)',
          'when the target is an open HDF5 file, its owner closes it',
          'HDF5 2.0 itself can crash the process after a write error (counted, not judged) and swallows a momentary error while closing an object, so for HDF5 only errors that persist are judged']


def setup():
    global imageseries, h5py
    import h5py
    from hexrd.core import imageseries
    from hexrd.core.imageseries import save
    from hexrd.core.imageseries.load import framecache, hdf5
    from hexrd.core import matrixutil
    core.watch([save.__file__])
    for dt in C.DTYPES:
        matrixutil.extract_ijv(np.zeros((2, 2), dt), 0, np.zeros(4, np.uint16), np.zeros(4, np.uint16), np.zeros(4, dt))
        b = np.zeros((4, 2), np.uint16)
        matrixutil.extract_ijv(np.zeros((2, 2), dt), 0, b[:, 0], b[:, 1], np.zeros((4, 1), dt)[:, 0])


def run(ch, ctx):
    C.set_cpus(2)
    big = ch.chance(0.15)
    fmt = ch.pick(['npz', 'fch5', 'hdf5', 'fch5-group', 'hdf5-file'], 'w', [4, 4, 4, 2, 2])
    data = C.gen_frames(ch, max_n=ch.pick([4, 1, 8]), max_dim=60 if big else 12, dense=big)
    meta = {k: np.asarray(v) for k, v in C.gen_meta(ch, len(data)).items()}
    older = ch.chance(0.5)
    odata = C.gen_frames(ch, max_n=5, max_dim=12) if older else None
    if older and ch.chance(0.5):
        odata = (data + 1).astype(data.dtype)      # same shape and type, other values
    thr = 0
    opts = {}
    if fmt.startswith('hdf5'):
        opts = {'gzip': ch.pick([1, 0, 4]), 'shuffle': ch.chance(0.5), 'chunk_rows': ch.pick([0, 1, 3])}
        want = data
    else:
        opts = {'max_workers': ch.pick([1, 2])}
        want = C.threshold_model(data, thr)
    name = os.path.join(ctx.tmp, 'out.' + ('npz' if fmt == 'npz' else 'h5'))
    path = ch.pick(['a', 'a/b'])
    ctx.say(fmt, data.shape, data.dtype, opts, 'over older file' if older else 'new file', path, list(meta))

    crashing = [True]

    def save(d, m, fail_at=()):
        src = C.source_series(d, m, fail_at)
        o = dict(opts)
        if fmt == 'npz':
            imageseries.write(src, name, 'frame-cache', threshold=thr, style='npz', **o)
        elif fmt == 'fch5':
            imageseries.write(src, name, 'frame-cache', threshold=thr, style='fch5', **o)
        elif fmt == 'hdf5':
            imageseries.write(src, name, 'hdf5', path=path, **o)
        else:
            with h5py.File(name, 'w') as h:
                try:
                    if fmt == 'fch5-group':
                        imageseries.write(src, h, 'frame-cache', threshold=thr, style='fch5', path=path, **o)
                    else:
                        imageseries.write(src, h, 'hdf5', path=path, **o)
                finally:
                    if not crashing[0]:
                        disk.on(False)       # what the owner's close meets is not the save's business

    def insim(fn):
        sim = core.Sim(type(ch)(replay={}), mode='none')
        sim.fatal = lambda s, m: os._exit(99)
        return sim.run(fn)

    def read():
        kw = {}
        if fmt == 'fch5-group':
            h = h5py.File(name, 'r')
            ims = imageseries.open(h, 'frame-cache', style='fch5', path=path, max_workers=1)
        elif fmt.startswith('hdf5'):
            ims = imageseries.open(name, 'hdf5', path=path)
        else:
            ims = imageseries.open(name, 'frame-cache', style='npz' if fmt == 'npz' else 'fch5', max_workers=1)
        n = len(ims)
        frames = [np.array(ims[i]) for i in range(n)]
        return dict(n=int(n), shape=tuple(int(x) for x in ims.shape), dtype=str(np.dtype(ims.dtype)), frames=frames, meta=dict(ims.metadata))

    def compare(v, what, metadata):
        ctx.require((v['n'], v['shape'], np.dtype(v['dtype'])) == (len(want), want.shape[1:], want.dtype), what + '-header',
                    f'read back {v["n"]} frames {v["shape"]} {v["dtype"]}, saved {len(want)} {want.shape[1:]} {want.dtype}')
        for i in range(len(want)):
            C.require_same(ctx, v['frames'][i], want[i], what, f'frame {i}')
        if metadata:
            ctx.require(C.meta_equal(v['meta'], meta), what + '-metadata', f'metadata {v["meta"]} saved {meta}')

    def reading():
        return disk.node(lambda: insim(read))

    def clean():
        if os.path.exists(name):
            os.remove(name)
        if older:
            import shutil
            shutil.copy('older', name)

    if older:
        o = disk.node(lambda: insim(lambda: save(odata, {})))
        ctx.require(o.kind == 'ok', 'save-failed', f'clean save of the older file: {o}')
        os.rename(name, 'older')
    clean()
    o = disk.node(lambda: insim(lambda: save(data, meta)), cls=disk.MUT)
    ctx.require(o.kind == 'ok', 'save-failed', f'clean save: {o}')
    nmut = o.ops
    ctx.say('operations', nmut)
    v = reading()
    ctx.require(v.kind == 'ok', 'read-failed', f'reading the clean save: {v}')
    compare(v.value, 'clean-save', True)

    for rnd in range(ch.between(1, 3)):
        clean()
        kind = ch.pick(['none', 'crash', 'torn', 'sticky', 'once', 'short', 'eintr', 'source'], 'f', [0, 5, 4, 6, 4, 1, 1, 2])
        if kind == 'none':
            continue
        # anywhere, but the last operations (where files are completed) more often
        k = 1 + ch.below(nmut, 'f') if ch.chance(0.6, 'f') else max(1, nmut - ch.below(12, 'f'))
        err = ch.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT], 'f')
        cls = disk.MUT
        plan = {'crash': [(cls, k, disk.CRASH, 0)], 'torn': [(cls, k, disk.TORN if fmt == 'npz' else disk.PAGETORN, 0)],
                'sticky': [(ch.pick([disk.MUT, disk.WRITE | disk.TRUNC, disk.WRITE], 'f'), k, disk.STICKY, err)] if kind == 'sticky' else [],
                'once': [(cls, k, disk.FAIL, err)],
                'short': [(disk.WRITE, 1 + ch.below(max(nmut, 1), 'f'), disk.SHORT, 0) for _ in range(3)] if kind == 'short' else [],
                'eintr': [(disk.WRITE, k, disk.INTR, 0)], 'source': []}[kind]
        bad = (k % len(data),) if kind == 'source' else ()
        crashing[0] = kind in ('crash', 'torn')
        same_process = ch.chance(0.5, 'f') and (fmt == 'npz' or kind == 'source')
        ctx.say('fault', kind, 'at', k, 'of', nmut, errno.errorcode.get(err), plan)

        def attempt():
            try:
                insim(lambda: save(data, meta, bad))
                return ('acked', None, None)
            except BaseException as e:
                disk.on(False)
                err1 = f'{type(e).__name__}: {e}'[:200]
                e = None
                if same_process:
                    disk.unplan()
                    try:
                        insim(lambda: save(data, meta))
                    except BaseException as e2:
                        return ('failed', err1, f'{type(e2).__name__}: {e2}'[:300])
                    return ('failed', err1, 'retried')
                return ('failed', err1, None)
        o = disk.node(attempt, plan)
        ctx.evals += 1
        for nm, c in o.fired.items():
            ctx.fault(nm, c)
        ctx.nontrivial = True
        fired = bool(o.fired)
        if kind == 'source':
            ctx.fault('source-read-error')
            fired = True
            ctx.require(o.kind != 'ok' or o.value[0] != 'acked', 'source-error-lost', f'{fmt}: reading frame {bad} failed but the save returned normally')
        ctx.require(o.kind in ('ok', 'died'), 'save-' + o.kind, f'{fmt}, {plan}: {o}')
        if o.kind == 'died':
            if fmt != 'npz' and kind in ('sticky', 'once') and o.code in (-11, -7, -6):
                ctx.probe('hdf5-library-crash-after-write-error')     # loud, and not the repository's code
            else:
                ctx.require(kind in ('crash', 'torn') and o.code == 77, 'save-died', f'{fmt}: the saving process died with code {o.code}')
            outcome = 'killed' if o.code == 77 else 'library crash'
        else:
            outcome = o.value[0]
        ctx.say('outcome', outcome)
        if outcome == 'acked':
            if kind == 'sticky' and fired:
                ctx.fail('silent-failure', f'{fmt}: the disk failed for good ({plan}) but the save returned normally')
            if kind == 'once' and fmt != 'npz':
                # HDF5 swallows a momentary error met while it closes an object
                ctx.probe('momentary-hdf5-error')
                continue
            v = reading()
            ctx.require(v.kind == 'ok', 'acked-unreadable', f'{fmt}, {plan}: the save returned normally but reading fails: {v}')
            compare(v.value, 'acked-wrong', True)
        elif outcome == 'failed':
            ctx.require(fired, 'save-failed', f'{fmt}: save failed without a fault: {o.value}')
            ctx.require(kind not in ('short', 'eintr'), 'benign-fault-failed', f'{fmt}: a {kind} write made the save fail: {o.value}')
            ctx.probe('save-raised')
            if same_process:
                ctx.require(o.value[2] == 'retried', 'retry-failed', f'{fmt}, {plan}: after {o.value[1]}, saving again on the healthy disk fails: {o.value[2]}')
                v = reading()
                ctx.require(v.kind == 'ok', 'retry-unreadable', f'{fmt}: reading the repeated save fails: {v}')
                compare(v.value, 'retry-wrong', True)
        elif outcome == 'killed':
            ctx.probe('save-killed')
            v = reading()
            ctx.require(v.kind in ('ok', 'raised'), 'reader-' + v.kind, f'{fmt}: reading what a kill at operation {k} left: {v}')
            if v.kind == 'ok':
                ctx.probe('killed-but-readable')
                x = v.value
                ow = None if odata is None else odata if fmt.startswith('hdf5') else C.threshold_model(odata, thr)
                if ow is not None and x['n'] == len(ow) and all(C.same(f, g) for f, g in zip(x['frames'], ow)):
                    ctx.probe('older-file-intact')
                else:
                    compare(x, 'interrupted-save-lies', False)
        if outcome != 'acked' and not (same_process and outcome == 'failed'):
            o = disk.node(lambda: insim(lambda: save(data, meta)))
            ctx.require(o.kind == 'ok', 'retry-failed', f'{fmt}: saving again over what was left: {o}')
            v = reading()
            ctx.require(v.kind == 'ok', 'retry-unreadable', f'{fmt}: {v}')
            compare(v.value, 'retry-wrong', True)
