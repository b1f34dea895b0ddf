"""C10 SNIP background is independent of the worker pool."""
import numpy as np

from . import common as C
from sim import core, procs

TECHNIQUE = 'seeded process-pool schedules (batch assignment, durations, completion order) with failing and killed workers against a row-by-row numpy model and the single-process result'
QUICK, THOROUGH = 700, 40000
RULE = ('Each run computes 1-3 backgrounds (possibly from two calling threads at once) of 1-12 spectra with thresholds, masked rows, NaNs, varied widths and iterations on 1-9 real forked workers behind a simulated '
        'pool that decides assignment, durations and completion order; some tasks raise and some workers die.')
REAL = ['hexrd.core.imageutil.snip1d, _run_snip1d_row', 'hexrd.core.convolution (compiled extension)', 'worker code in forked processes']
STUB = ['process pool (batch assignment, durations, completion, worker death)', 'thread scheduler and locks']
ASSUME = ['the minimum over all spectra sets the scale of every row, as in the single-process computation']


def setup():
    global iu
    from hexrd.core import imageutil as iu
    core.watch([iu.__file__])
    iu.snip1d(np.ones((2, 8)), w=2, numiter=1, max_workers=1)


def smooth(z, p):
    """mean of the values p to either side, NaN ones left out, NaN pixels kept; the value itself if both are"""
    i = np.arange(len(z))
    a, b = z[np.maximum(i - p, 0)], z[np.minimum(i + p, len(z) - 1)]
    with np.errstate(all='ignore'):
        s = np.where(np.isnan(a), b, np.where(np.isnan(b), a, (a + b) / 2))
    s = np.where(np.isnan(s), z, s)      # nothing to either side
    s[np.isnan(z)] = np.nan
    return s


def model(y, w, numiter, threshold):
    lo = np.nanmin(y)
    out = np.empty(y.shape)
    with np.errstate(all='ignore'):
        for k, row in enumerate(y.astype(float)):
            z = np.log(np.log(np.sqrt(row - lo) + 1) + 1)
            m = row <= threshold if threshold is not None else np.zeros(len(row), bool)
            b = z
            for _ in range(numiter):
                for p in range(w, 0, -1):
                    zz = z.copy()
                    zz[m] = np.nan
                    b = np.minimum(b, smooth(zz, p))
                z = b
            out[k] = (np.exp(np.exp(b) - 1) - 1) ** 2 + lo
            if m.all():
                out[k] = np.nan
    out[np.isnan(out)] = np.nan if threshold is None else threshold
    return out


def make(ch, ctx, j):
    r = np.random.default_rng(ch.bits())
    n, m = ch.pick([1, 2, 3, 5, 8, 12]), ch.pick([1, 3, 8, 20, 40])
    dt = ch.pick(['float64', 'float64', 'float32'])
    y = 100 * r.random((n, m)) + 10 * np.arange(n)[:, None]
    y += 500 * (r.random((n, m)) < 0.1)
    thr = ch.pick([None, 0.0, 20.0, 60.0])
    if ch.chance(0.3):
        y[ch.below(n)] = 0
    if ch.chance(0.2):
        y[r.random(y.shape) < 0.2] = 0
    if ch.chance(0.2):
        y[r.random(y.shape) < 0.1] = np.nan
        y[0, 0] = 1.0
    y = y.astype(dt)
    a = dict(y=y, w=ch.pick([4, 1, 2, 7]), numiter=ch.pick([2, 1, 3]), threshold=thr, workers=ch.pick([2, 3, 1, 5, 9, n + 1]))
    ctx.say('job', j, y.shape, dt, {k: v for k, v in a.items() if k != 'y'})
    return a


def run(ch, ctx):
    pol = procs.Policy(ch)
    if ch.chance(0.3, 'f'):
        pol.raise_p = ch.pick([0.0, 0.2, 0.05], 'f')
        pol.kill_p = ch.pick([0.2, 0.0, 0.05], 'f')
    jobs = [make(ch, ctx, j) for j in range(ch.between(1, 3))]
    threads = len(jobs) > 1 and ch.chance(0.3)

    def call(a, workers):
        y = a['y'].copy()
        with np.errstate(all='ignore'):
            out = iu.snip1d(y, w=a['w'], numiter=a['numiter'], threshold=a['threshold'], max_workers=workers)
        ctx.require(C.same(y, a['y']), 'input-changed', 'the spectra were changed')
        return out

    def one(j, a):
        before = pol.faults
        try:
            got = call(a, a['workers'])
        except (C.InjectedError, procs.cfp.BrokenProcessPool):
            ctx.require(pol.faults, 'spurious', f'job {j} failed without a fault')
            ctx.probe('failed')
            return
        if not threads:
            ctx.require(pol.faults == before, 'swallowed', f'job {j}: a worker failed and a background was returned')
        elif pol.faults:
            return
        ctx.evals += 1
        want = model(a['y'], a['w'], a['numiter'], a['threshold'])
        ctx.require(got.shape == want.shape and got.dtype == a['y'].dtype, 'shape', f'{got.shape} {got.dtype}')
        eps = 1e-8 if got.dtype == np.float64 else 2e-2
        for k in range(len(want)):
            ok = np.isclose(got[k], want[k], rtol=eps, atol=eps * 10, equal_nan=True)
            ctx.require(np.all(ok), 'row', f'job {j} row {k} of {len(want)}: {C.describe_diff(got[k], want[k])}')
        a['got'] = got

    def body():
        if threads:
            T = C.Threads()
            for j, a in enumerate(jobs):
                T.go(one, j, a)
            T.join()
        else:
            for j, a in enumerate(jobs):
                one(j, a)
        ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left')
        for j, a in enumerate(jobs):
            one_ = call(a, 1)
            if 'got' in a:
                ctx.evals += 1
                ctx.require(C.same(one_, a['got']), 'serial-differs', f'job {j}: {a["workers"]} workers and one process differ: {C.describe_diff(a["got"], one_)}')
    ctx.sim(body, policy=pol)
