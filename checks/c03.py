"""C03 re-saved frame caches are never served stale."""
import os

import numpy as np
import yaml

from . import common as C
from sim import core, disk

TECHNIQUE = 'seeded histories of saves, opens, reads and clock steps against a path-to-contents model'
QUICK, THOROUGH = 900, 40000
RULE = ('Each run is a history of 6-22 operations (save or re-save in place, swap two files, re-point a YAML file, open, read, concurrent reads, overwrite a returned frame, '
        'step the file clock forward, back or not at all, drop a series) over 1-5 frame-cache files in two directories, checked against a map path -> last contents.')
REAL = ['hexrd.core.imageseries.save, load.framecache (memoized loaders, lru_cache)', 'ThreadPoolExecutor on real threads', 'numpy npz, h5py/HDF5 on real files']
STUB = ['file modification times (set from a simulated clock with os.utime)', 'thread scheduler, locks, queues and clock (simulator)', 'processor count']
ASSUME = ['the modification time or size of a re-saved file differs from every earlier save of the same path', 'no file is re-saved while it is being read']


def setup():
    global imageseries, h5py, process
    import h5py
    from hexrd.core import imageseries
    from hexrd.core.imageseries import process, baseclass, imageseriesiter
    from hexrd.core.imageseries.load import framecache
    from hexrd.core import matrixutil
    core.watch([framecache.__file__, baseclass.__file__])
    for dt in C.DTYPES:
        matrixutil.extract_ijv(np.zeros((2, 2), dt), 0, np.zeros(4, np.uint16), np.zeros(4, np.uint16), np.zeros(4, dt))
        b = np.zeros((4, 2), np.uint16)
        matrixutil.extract_ijv(np.zeros((2, 2), dt), 0, b[:, 0], b[:, 1], np.zeros((4, 1), dt)[:, 0])


class File:
    def __init__(self, path, style, ypath):
        self.path, self.style, self.ypath = path, style, ypath
        self.data = None
        self.seen = set()      # (mtime, size) of earlier saves


class Opened:
    def __init__(self, ims, want, f, ver):
        self.ims, self.want, self.f, self.ver = ims, want, f, ver
        self.loaded = False


def run(ch, ctx):
    C.set_cpus(ch.pick([2, 4, 1]))
    clock = [1_700_000_000_000_000_000]
    os.mkdir('d0')
    os.mkdir('d1')
    files = []
    for k in range(ch.between(1, 5)):
        style = ch.pick(['npz', 'fch5', 'yml'])
        d = os.path.join(ctx.tmp, f'd{ch.below(2)}')
        base = ch.pick(['a', 'b', 'c'])
        p = os.path.join(d, base + ('.fch5' if style == 'fch5' else '.npz'))
        if any(f.path == p for f in files):
            continue
        files.append(File(p, style, os.path.join(d, base + '.yml')))
    opened = []
    last_shape = {}
    ver = [0]

    def stamp(f):
        """give the file a modification time; False if its identity is old"""
        size = os.stat(f.path).st_size
        step = ch.pick([10 ** 9, 1, 0, 0, 10 ** 6, -10 ** 9, -1, 3600 * 10 ** 9, -3600 * 10 ** 9])
        clock[0] += step
        while (clock[0], size) in f.seen:
            clock[0] += 1
        f.seen.add((clock[0], size))
        os.utime(f.path, ns=(clock[0], clock[0]))
        if step == 0:
            ctx.probe('same-mtime-resave')
        if sum(1 for m, z in f.seen if z == size) > 1:
            ctx.probe('same-size-resave')

    def write_yaml(f):
        with open(f.ypath, 'w') as h:
            yaml.safe_dump({'data': {'file': os.path.basename(f.path) if ch.chance(0.7) else f.path, 'dtype': str(f.data.dtype),
                                     'nframes': len(f.data), 'shape': list(f.data.shape[1:])}, 'meta': {}}, h)

    def save(f):
        if f.data is not None and ch.chance(0.6):
            # same structure, other values: often the same size
            r = np.random.default_rng(ch.bits())
            data = f.data.copy()
            nz = data != 0
            data[nz] = r.integers(1, 100, size=int(nz.sum())).astype(data.dtype)
        elif ch.chance(0.6):
            data = C.gen_frames(ch, max_n=3, max_dim=3, dtypes=['uint8', 'uint16', 'float32'])
        else:
            data = C.gen_frames(ch, max_n=5, max_dim=12)
        src = C.source_series(data, {})
        ver[0] += 1
        imageseries.write(src, f.path, 'frame-cache', threshold=0, style='npz' if f.style == 'yml' else f.style, max_workers=ch.pick([1, 3]))
        f.data = C.threshold_model(data, 0)
        stamp(f)
        if f.style == 'yml':
            write_yaml(f)
        ctx.say('save', files.index(f), f.style, data.shape, data.dtype, 'mtime', clock[0] - 1_700_000_000_000_000_000, 'size', os.stat(f.path).st_size)
        for o in opened:
            if o.f is f and not o.loaded:
                o.want = None       # opened before, first read after: unspecified
        f.ver = ver[0]

    def openit(f):
        kw = {}
        mw = ch.pick([None, 1, 2])
        if mw:
            kw['max_workers'] = mw
        name = f.ypath if f.style == 'yml' else f.path
        if ch.chance(0.2):
            name = os.path.relpath(name)
        elif ch.chance(0.15):       # by another name of the file, the same one each time
            link = f'{name}.link{os.path.splitext(name)[1]}'
            if not os.path.islink(link):
                os.symlink(name, link)
            name = link
            ctx.probe('opened-by-link')
        o = Opened(imageseries.open(name, 'frame-cache', style=f.style, **kw), f.data, f, f.ver)
        opened.append(o)
        ctx.say('open', files.index(f))
        C.require_same(ctx, np.array([len(o.ims), *[int(x) for x in o.ims.shape]]), np.array([len(f.data), *f.data.shape[1:]]), 'stale-shape', f'file {files.index(f)}')
        return o

    def readit(o, spoil):
        if o.want is None:
            return
        first = not o.loaded
        o.loaded = True
        n = len(o.want)
        idx = range(n) if ch.chance(0.6) else [ch.below(n)]
        for i in idx:
            how = ch.below(3)
            if how == 0:
                got = o.ims[i]
                w = o.want[i]
            elif how == 1:
                h, wd = o.want.shape[1:]
                got = o.ims.get_region(i, ((0, h), (0, wd)))
                w = o.want[i]
            else:
                h, wd = o.want.shape[1:]
                rows, cols = np.mgrid[0:h, 0:wd]
                got = o.ims[i, rows, cols]
                got = got.toarray() if hasattr(got, 'toarray') else np.asarray(got)
                w = o.want[i]
            cur = o.ver == o.f.ver
            C.require_same(ctx, got, w, 'stale-frames' if (first and cur) else 'loaded-series-changed', f'file {files.index(o.f)} ({o.f.style}) frame {i}', dtype=how != 2)
            if spoil:
                try:
                    got[...] = 77
                except ValueError:
                    pass
                a = o.ims._adapter if False else None   # only the returned frame is touched
        ctx.say('read', files.index(o.f), 'first' if first else 'again', 'spoil' if spoil else '')

    def main():
        for f in files:
            save(f)
        for _ in range(ch.between(4, 18)):
            op = ch.pick(['open-read', 'save', 'open', 'read', 'readers', 'drop', 'swap', 'spoil'], 'w', [5, 5, 2, 4, 2, 1, 1, 3])
            if op == 'save':
                save(files[ch.below(len(files))])
            elif op == 'open':
                openit(files[ch.below(len(files))])
            elif op == 'open-read':
                readit(openit(files[ch.below(len(files))]), ch.chance(0.4))
            elif op in ('read', 'spoil') and opened:
                readit(opened[ch.below(len(opened))], op == 'spoil')
            elif op == 'readers' and files:
                f = files[ch.below(len(files))]
                os_ = [openit(f)] + [opened[ch.below(len(opened))] for _ in range(ch.below(3))]
                th = C.Threads()
                for o in os_:
                    th.go(readit, o, False)
                th.join()
            elif op == 'drop' and opened:
                opened.pop(ch.below(len(opened)))
            elif op == 'swap':
                same = [f for f in files if f.style != 'yml']
                if len(same) >= 2:
                    a = same[ch.below(len(same))]
                    b = same[ch.below(len(same))]
                    if a is not b and a.style == b.style:
                        os.rename(a.path, 'tmp')
                        os.rename(b.path, a.path)
                        os.rename('tmp', b.path)
                        a.data, b.data = b.data, a.data
                        ver[0] += 1
                        a.ver = b.ver = ver[0]
                        for f in (a, b):
                            stamp(f)
                            for o in opened:
                                if o.f is f and not o.loaded:
                                    o.want = None
                        ctx.say('swap', files.index(a), files.index(b))
        for f in files:
            readit(openit(f), False)
        for o in opened:
            readit(o, False)
    ctx.sim(main)
