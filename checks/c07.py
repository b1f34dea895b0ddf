"""C07 image-series statistics: independent of memory, chunking and interleaving."""
import gc
import types

import numpy as np

from . import common as C
from sim import core

TECHNIQUE = 'seeded interleavings of chunked statistics iterators under simulated free memory and frame-read failures against a direct model'
QUICK, THOROUGH = 1200, 80000
RULE = ('Each run makes 1-3 series (array, frame cache, processed view, pre-emptible source with or without a failing frame, plain ndarray), then 1-3 simulated threads each drive up to '
        '4 statistics (one-call or chunked, six kinds, any chunk count, frame limit and percentile) in random interleaving, abandoning some; simulated free memory ranges from none to more than the data, '
        'and changes between calls.')
REAL = ['hexrd.core.imageseries.stats', 'array, frame-cache and processed image series']
STUB = ['thread scheduler and locks', 'amount of free memory (psutil.virtual_memory and the buffer size derived from it)', 'failing source series']
ASSUME = ['results are compared with a direct numpy evaluation to single-precision accuracy', 'numpy.percentile overflows for signed integers whose differences overflow: such data are not generated']
KINDS = ['max', 'min', 'sum', 'average', 'median', 'percentile']


def setup():
    global imageseries, stats, P, psutil
    import psutil
    from hexrd.core import imageseries
    from hexrd.core.imageseries import stats, process
    from hexrd.core.imageseries.load import framecache
    P = process.ProcessedImageSeries
    core.watch([stats.__file__])


def set_memory(nbytes):
    """free memory such that the buffers may take nbytes"""
    vm = types.SimpleNamespace(available=2 * nbytes, total=4 * nbytes + 1, free=2 * nbytes, used=0, percent=50.0)
    psutil.virtual_memory = lambda: vm
    if hasattr(stats, 'virtual_memory'):
        stats.virtual_memory = psutil.virtual_memory
    if hasattr(stats, 'STATS_BUFFER'):
        stats.STATS_BUFFER = int(0.5 * vm.available)


def model(kind, pct, frames):
    f = frames.astype(np.float64) if kind in ('sum', 'average') else frames
    if kind == 'max':
        return f.max(0)
    if kind == 'min':
        return f.min(0)
    if kind == 'sum':
        return f.sum(0)
    if kind == 'average':
        return f.mean(0)
    # by hand: linear interpolation between order statistics
    s = np.sort(frames, axis=0).astype(np.float64)
    q = (50 if kind == 'median' else pct) / 100 * (len(s) - 1)
    lo = int(np.floor(q))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (q - lo)


def close_enough(got, want, kind, frames):
    got = np.asarray(got)
    if got.shape != want.shape:
        return False
    if kind in ('max', 'min'):
        return bool(np.array_equal(got, want))
    scale = np.abs(frames.astype(np.float64)).sum(0) if kind == 'sum' else np.abs(frames.astype(np.float64)).max(0)
    eps = 1e-12 if kind == 'sum' else 4e-7 * (len(frames) + 2)
    return bool(np.all(np.abs(got.astype(np.float64) - want) <= eps * scale[:got.shape[0]] + 1e-30))


def pieces(n, k):
    return [int(x) for x in np.cumsum([len(a) for a in np.array_split(np.arange(n), k)])]


def make(ch, ctx, j, like=None):
    kw = {} if like is None else dict(n=len(like), shape=like.shape[1:])
    data = C.gen_frames(ch, dtypes=[str(like.dtype)], **kw) if like is not None else C.gen_frames(ch, max_n=ch.pick([6, 12, 25]), max_dim=ch.pick([6, 12, 30]), dtypes=['uint16', 'int32', 'float32', 'uint8', 'float64', 'uint32', 'int16'])
    if data.dtype.kind == 'f':
        data = np.clip(data, -1e6, 1e6)      # averages accumulate in single precision by design
    if data.dtype.kind == 'i':
        data = np.minimum(data, 30000)       # numpy.percentile overflows when differences of signed integers do
    kind = ch.pick(['source', 'array', 'framecache', 'view', 'ndarray', 'failing'])
    ctx.say('series', j, kind, data.shape, data.dtype)
    arr = imageseries.open(None, 'array', data=data, meta={})
    if kind == 'array':
        return arr, data, kind, None
    if kind == 'framecache':
        p = f'{ctx.tmp}/s{j}.npz'
        imageseries.write(arr, p, 'frame-cache', style='npz', threshold=0, cache_file=p)
        return imageseries.open(p, 'frame-cache', style='npz'), C.threshold_model(data, 0), kind, None
    if kind == 'view':
        fl = [ch.below(len(data)) for _ in range(ch.between(1, 8))]
        return P(arr, [('flip', 't')], frame_list=fl), data[fl].transpose(0, 2, 1), kind, None
    if kind == 'ndarray':
        return data.copy(), data, kind, None
    src = C.source_series(data, {})
    ad = src._adapter
    if kind == 'failing':
        ad.fail_at = {ch.below(len(data), 'f')}
    return src, data, kind, ad


class Job:
    """one statistic being computed"""

    def __init__(self, ch, ctx, sets, n):
        self.ims, self.data, self.kind, self.ad = sets[ch.below(len(sets))]
        self.stat = ch.pick(KINDS[:4] if self.kind == 'ndarray' else KINDS)
        self.pct = ch.pick([50, 0, 100, 25, 33.3, 95])
        lim = ch.pick([0, 1, len(self.data), len(self.data) + 3, max(1, len(self.data) // 2)])
        self.lim = lim
        self.n = min(lim, len(self.data)) if lim else len(self.data)
        self.frames = self.data[:self.n]
        self.rows = self.stat in ('median', 'percentile')
        m = self.data.shape[1] if self.rows else self.n
        self.iterate = ch.chance(0.8)
        self.k = ch.pick([1, m, max(1, m // 2), max(1, m - 1), 1 + ch.below(m)])
        self.kw = {} if ch.chance(0.6) or not self.rows else {'use_buffer': ch.chance(0.5)}
        self.stop_at = ch.below(self.k) if ch.chance(0.15) else None
        self.id = n
        self.seen = []
        self.gen = None
        ctx.say('job', n, self.stat, 'limit', lim, 'chunks', self.k if self.iterate else None, self.kw, 'abandon', self.stop_at)

    def args(self):
        return (self.ims,) + ((self.pct,) if self.stat == 'percentile' else ())

    def fails(self, upto=None):
        return self.ad is not None and any(i < self.n for i in self.ad.fail_at)


def run(ch, ctx):
    sets = [make(ch, ctx, 0)]
    for j in range(1, ch.between(1, 3)):
        # often of the same size as the first, as the panels of an instrument are
        sets.append(make(ch, ctx, j, sets[0][1] if ch.chance(0.6) else None))
    frame = max(int(s[1][0].nbytes) for s in sets)

    def memory():
        set_memory(ch.pick([0, 1, frame - 1, frame, 2 * frame + frame // 2, 5 * frame, 10 ** 9]))
    memory()
    nj = ch.between(1, 8)
    jobs = [Job(ch, ctx, sets, i) for i in range(nj)]
    nt = ch.between(1, 3)
    owners = [ch.below(nt) for _ in jobs]
    plans = [ch.bits() for _ in range(nt)]

    def check(job, img, frames, rows=None):
        ctx.evals += 1
        want = model(job.stat, job.pct, frames)
        if rows is not None:
            got = np.asarray(img)
            ctx.require(got.shape == want.shape, 'shape', f'job {job.id} {job.stat}: {got.shape}, frames {want.shape}')
            ctx.require(close_enough(got[:rows], want[:rows], job.stat, frames), 'rows', f'job {job.id} {job.stat}: the first {rows} rows are wrong: {C.describe_diff(got[:rows], want[:rows])}')
            ctx.require(not np.any(got[rows:]), 'rows-beyond', f'job {job.id} {job.stat}: rows after {rows} are filled in')
        else:
            ctx.require(close_enough(img, want, job.stat, frames), job.stat, f'job {job.id} {job.stat} over {len(frames)} frames: {C.describe_diff(np.asarray(img), want)}')

    def step(job):
        """advance; True when finished"""
        fn = getattr(stats, job.stat)
        nf = {} if job.lim == 0 else {'nframes': job.lim}
        try:
            if not job.iterate:
                img = fn(*job.args(), **nf)
                ctx.require(not job.fails(), 'swallowed', f'job {job.id}: a frame failed to read and {job.stat} returned')
                check(job, img, job.frames)
                job.seen.append((img, np.array(img)))
                return True
            if job.gen is None:
                job.gen = getattr(stats, job.stat + '_iter')(*job.args(), job.k, **nf, **job.kw)
                job.stops = pieces(job.data.shape[1] if job.rows else job.n, job.k)
            if job.stop_at is not None and len(job.seen) == job.stop_at:
                if job.id % 2:
                    job.gen.close()
                job.gen = None
                ctx.probe('abandoned')
                return True
            try:
                img = next(job.gen)
            except StopIteration:
                ctx.require(not job.fails(), 'swallowed', f'job {job.id}: a frame failed to read and {job.stat}_iter ended')
                ctx.require(len(job.seen) == job.k, 'count', f'job {job.id} {job.stat}_iter gave {len(job.seen)} images for {job.k} chunks')
                return True
            c = len(job.seen)
            ctx.require(c < job.k, 'count', f'job {job.id} {job.stat}_iter gave more than {job.k} images')
            if job.rows:
                check(job, img, job.frames, job.stops[c])
            else:
                ctx.require(not (job.ad and any(i < job.stops[c] for i in job.ad.fail_at)), 'swallowed', f'job {job.id}: image {c} although a frame in it failed to read')
                check(job, img, job.frames[:job.stops[c]])
            job.seen.append((img, np.array(img)))
            return False
        except C.InjectedError:
            ctx.require(job.fails(), 'spurious', f'job {job.id} failed although none of its frames does')
            ctx.fault('frame-read-error')
            ctx.probe('read-failed')
            return True

    def client(t):
        r = np.random.default_rng(plans[t])
        todo = [j for j, o in zip(jobs, owners) if o == t]
        while todo:
            if r.random() < 0.2:
                memory_at(int(r.integers(6)))
            j = todo[int(r.integers(len(todo)))]
            if step(j):
                todo.remove(j)
            if r.random() < 0.1:
                gc.collect()

    def memory_at(i):
        set_memory([0, 1, frame, 2 * frame + 1, 4 * frame, 10 ** 9][i])

    def body():
        T = C.Threads()
        for t in range(nt):
            T.go(client, t)
        T.join()
        for j in jobs:
            for img, copy in j.seen:
                ctx.evals += 1
                ctx.require(C.same(img, copy), 'changed-later', f'job {j.id} {j.stat}: an image it yielded changed afterwards: {C.describe_diff(img, copy)}')
        # with the fault gone the same statistics are right
        for j in jobs:
            if j.fails():
                j.ad.fail_at = set()
        for j in jobs:
            nf = {} if j.lim == 0 else {'nframes': j.lim}
            a = getattr(stats, j.stat)(*j.args(), **nf)
            check(j, a, j.frames)
            b = None
            for b in getattr(stats, j.stat + '_iter')(*j.args(), j.k, **nf, **j.kw):
                pass
            check(j, b, j.frames)
        for s in sets:
            if s[2] == 'ndarray':
                ctx.require(C.same(s[0], s[1]), 'input-changed', 'the input array was changed')
    ctx.sim(body)
