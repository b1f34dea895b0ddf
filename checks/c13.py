"""C13 orientation indexing scores are independent of process count and order."""
import numpy as np

from . import common as C
from . import instr as I
from sim import core, procs

TECHNIQUE = 'seeded process-pool schedules (worker assignment, durations, completion order, raising workers) over histories of runs, against an independent orientation-by-orientation score'
QUICK, THOROUGH = 800, 40000
RULE = ('Each run scores 1-4 lists of 1-25 trial orientations against different random eta-omega maps (1-4 hkls, NaN gaps, ranges, tolerances, thresholds of every kind) one after another in one process, serially or '
        'on 1-9 real forked workers behind a simulated pool that decides chunk assignment, durations and completion order; some chunks raise, and some lists come with invalid ranges.')
REAL = ['hexrd.hedm.indexer.paintGrid, paintgrid_init, paintGridThis and its compiled kernels', 'PlaneData, compiled oscillation-angle code', 'worker code in forked processes']
STUB = ['process pool (chunk assignment, durations, completion order)', 'thread scheduler and locks']
ASSUME = ['oscillation angles of reflections come from the repository\'s compiled code', 'a killed worker of multiprocessing.Pool is not simulated: the standard library itself hangs then']


class Maps:
    """what EtaOmeMaps offers"""

    def __init__(self, r, pd, ids, nome, neta, nan, ome0, span):
        self.planeData = pd
        self.iHKLList = np.array(ids)
        self.etaEdges = np.linspace(-np.pi, np.pi, neta + 1)
        self.omeEdges = np.radians(np.linspace(ome0, ome0 + span, nome + 1))
        self.etas = (self.etaEdges[1:] + self.etaEdges[:-1]) / 2
        self.omegas = (self.omeEdges[1:] + self.omeEdges[:-1]) / 2
        self.dataStore = r.random((len(ids), nome, neta)) * (r.random((len(ids), nome, neta)) < 0.4) * 100
        if nan:
            self.dataStore[r.random(self.dataStore.shape) < 0.15] = np.nan


def setup():
    global ix, PDS, xfcapi, rotations
    C.set_cpus(6)
    np.seterr(all='ignore')
    Material, _, _ = I.load()
    from hexrd.hedm import indexer as ix
    from hexrd.core.transforms import xfcapi
    from hexrd.core import rotations
    core.watch([ix.__file__])
    PDS = [I.plane_data(Material, n, energy=e) for n, e in ((2, 65.), (4, 50.), (5, 80.))]
    r = np.random.default_rng(0)
    m = Maps(r, PDS[0], [0, 1], 9, 12, True, -60., 120.)
    q = r.normal(size=(4, 3))
    q /= np.linalg.norm(q, axis=0)
    for p in (q, q[:, :1], np.asfortranarray(q), np.asfortranarray(q)[:, :1]):
        ix.paintGrid(p, m, threshold=1.)
        model(p, m, 1., None, None, .02, .02, np.radians([-180, 180]), None)
    assert np.allclose(ix.paintGrid(q, m, threshold=10.), model(q, m, 10., None, None, .02, .02, np.radians([-180, 180]), None))


def spans(ranges, off):
    out = []
    two = 2 * np.pi
    for a, b in ranges:
        if a + two < b + 1e-8:
            return [(off, two + off)]
        a, b = np.mod(a - off, two) + off, np.mod(b - off, two) + off
        out += [(a, b)] if a <= b else [(a, off + two), (off, b)]
    return out


def model(quats, m, threshold, ome, eta, ome_tol, eta_tol, period, bmat):
    pd = m.planeData
    idx = pd.getHKLID(pd.getHKLs(*m.iHKLList).T, master=False)
    sym = [pd.getSymHKLs()[i] for i in idx]
    n = len(sym)
    if threshold is None:
        thr = [(np.mean(x) + np.median(x)) / 2 for x in m.dataStore]
    else:
        thr = np.ones(n) * threshold
    bmat = pd.latVecOps['B'] if bmat is None else bmat
    off = np.min(period)
    os_ = spans([(m.omeEdges.min(), m.omeEdges.max())] if ome is None else ome, off)
    es_ = spans([(-np.pi, np.pi)] if eta is None else eta, -np.pi)
    do = int(round(ome_tol / abs(m.omeEdges[1] - m.omeEdges[0])))
    de = int(round(eta_tol / abs(m.etaEdges[1] - m.etaEdges[0])))
    out = []
    for q in quats.T:
        rm = rotations.rotMatOfQuat(q)
        hits = total = 0
        for k in range(n):
            for angs in xfcapi.oscill_angles_of_hkls(np.ascontiguousarray(sym[k].T), 0., rm, bmat, pd.wavelength):
                for tth, e, o in angs:
                    if np.isnan(tth):
                        continue
                    e = np.mod(e + np.pi, 2 * np.pi) - np.pi
                    o = np.mod(o - off, 2 * np.pi) + off
                    if not any(a <= e < b for a, b in es_) or not any(a <= o < b for a, b in os_):
                        continue
                    j = np.searchsorted(m.etaEdges, e, side='right') - 1
                    i = np.searchsorted(m.omeEdges, o, side='right') - 1
                    if not (0 <= j < len(m.etaEdges) - 1 and 0 <= i < len(m.omeEdges) - 1):
                        continue
                    w = m.dataStore[k][max(i - do, 0):i + do + 1, max(j - de, 0):j + de + 1].ravel()
                    a = np.flatnonzero(w > thr[k])
                    b = np.flatnonzero(np.isnan(w))
                    if len(b) and (not len(a) or b[0] < a[0]):
                        continue
                    total += 1
                    hits += len(a) > 0
        out.append(hits / total if total else 0.)
    return np.array(out)


def run(ch, ctx):
    jobs = []
    for j in range(ch.between(1, 4)):
        r = np.random.default_rng(ch.bits())
        pd = ch.pick(PDS)
        ids = [int(i) for i in r.permutation(np.flatnonzero(~np.asarray(pd.exclusions)))[:ch.between(1, 4)]]
        ome0 = ch.pick([-60., -180., 0., 20.])
        m = Maps(r, pd, ids, ch.pick([9, 20, 31]), ch.pick([12, 36, 5]), ch.chance(0.3), ome0, ch.pick([120., 60., 180.]))
        n = ch.pick([1, 2, 3, 4, 5, 7, 12, 25])
        q = r.normal(size=(4, n))
        q /= np.linalg.norm(q, axis=0)
        kw = {'omeTol': np.radians(ch.pick([1., 3., 10.])), 'etaTol': np.radians(ch.pick([1., 15., 40.]))}
        kw['threshold'] = [None, 20., list(r.uniform(5, 80, len(ids))), r.uniform(5, 80, len(ids))][ch.below(4)]
        if kw['threshold'] is None:
            m.dataStore = np.nan_to_num(m.dataStore)
        kw['omePeriod'] = np.radians([ome0, ome0 + 360.]) if ch.chance(0.6) else np.radians([-180., 180.])
        if ch.chance(0.4):
            kw['etaRange'] = np.radians(ch.pick([[(-85, 85)], [(-85, 85), (95, 265)], [(10, 170)], [(-190, 190)]]))
        if ch.chance(0.4):
            kw['omegaRange'] = np.radians(ch.pick([[(-60, 60)], [(-50, -10), (10, 80)], [(0, 360)]]))
        if ch.chance(0.2):
            kw['bMat'] = pd.latVecOps['B'] * 1.01
        bad = None
        if ch.chance(0.08):
            bad = ch.pick(['ranges', 'threshold'])
            if bad == 'ranges':
                kw[ch.pick(['etaRange', 'omegaRange'])] = [(1., -1.)]
            else:
                kw['threshold'] = [1.] * (len(ids) + 1)
        par = ch.chance(0.85)
        ncpu = ch.pick([2, 3, 4, 6, 9, None, 1])
        one = n == 1 and ch.chance(0.5)
        jobs.append((q, m, kw, bad, par, ncpu, one))
        ctx.say('run', j, 'orientations', n, 'hkls', ids, 'parallel', par, ncpu, 'bad', bad, {k: v for k, v in kw.items() if k != 'bMat'})
    pol = procs.Policy(ch)
    if ch.chance(0.25, 'f'):
        pol.raise_p = 0.15
        pol.max_faults = 2

    def body():
        for j, (q, m, kw, bad, par, ncpu, one) in enumerate(jobs):
            before = pol.faults
            q0, d0 = q.copy(), m.dataStore.copy()
            try:
                got = ix.paintGrid(q[:, 0] if one else q, m, doMultiProc=par, nCPUs=ncpu, **kw)
            except core.InjectedError:
                ctx.require(pol.faults > before, 'spurious', f'run {j} failed without a fault')
                ctx.probe('failed')
                continue
            except (ValueError, RuntimeError) as e:
                ctx.require(bad, 'spurious', f'run {j} raised {e!r}')
                ctx.probe('refused')
                continue
            finally:
                ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left')
            ctx.require(not bad, 'accepted', f'run {j}: invalid {bad} accepted')
            ctx.require(pol.faults == before, 'swallowed', f'run {j}: a worker failed and scores were returned')
            ctx.require(C.same(q, q0) and C.same(m.dataStore, d0), 'input-changed', 'inputs were changed')
            want = model(q, m, kw['threshold'], kw.get('omegaRange'), kw.get('etaRange'), kw['omeTol'], kw['etaTol'], kw['omePeriod'], kw.get('bMat'))
            ctx.evals += 1
            ctx.require(len(got) == len(want) and all(isinstance(x, float) for x in got), 'count', f'run {j}: {len(got)} scores {got[:3]} for {len(want)} orientations')
            ctx.require(np.allclose(got, want, rtol=0, atol=1e-12), 'scores', lambda: f'run {j}: {C.describe_diff(np.asarray(got), want)}')
            if want.any():
                ctx.probe('scored', int((want > 0).sum()))
    ctx.sim(body, policy=pol)
