"""C14 seed-orientation generation is independent of process count and order."""
from types import SimpleNamespace as NS

import numpy as np

from . import common as C
from . import instr as I
from .c13 import Maps
from sim import core, procs

TECHNIQUE = 'seeded process-pool schedules (worker assignment, durations, completion order, raising workers) over histories of runs, against a spot-by-spot serial evaluation'
QUICK, THOROUGH = 700, 40000
RULE = ('Each run generates trial orientations 1-4 times from different random eta-omega maps (several materials, seed hkls in any order, spot finders, NaN gaps, thresholds giving no spots to many) serially or on 2-9 '
        'real forked workers behind a simulated pool that decides chunk assignment, durations and completion order; some chunks raise.')
REAL = ['hexrd.hedm.findorientations.generate_orientation_fibers, discretefiber_init, discretefiber_reduced, clean_map', 'find_peaks_2d', 'rotations.discreteFiber', 'worker code in forked processes']
STUB = ['process pool (chunk assignment, durations, completion order)', 'thread scheduler and locks', 'the config object (plain attributes)']
ASSUME = ['spot finding and the fibre of one spot are the repository\'s own, called serially', 'a killed worker of multiprocessing.Pool is not simulated: the standard library itself hangs then']

METHODS = [{'label': {'filter_radius': 1, 'threshold': 1.}}, {'label': {'filter_radius': 0, 'threshold': 30.}}, {'label': {'filter_radius': None, 'threshold': 60.}},
           {'blob_dog': dict(min_sigma=0.5, max_sigma=3, sigma_ratio=1.6, threshold=0.02, overlap=0.1)}, {'label': {'filter_radius': 0, 'threshold': 99.5}}]


def setup():
    global fo, PDS, xfcapi, rot, mutil, find_peaks_2d
    C.set_cpus(6)
    np.seterr(all='ignore')
    Material, _, _ = I.load()
    from hexrd.hedm import findorientations as fo
    from hexrd.core.transforms import xfcapi
    from hexrd.core import rotations as rot, matrixutil as mutil
    from hexrd.core.imageutil import find_peaks_2d
    core.watch([fo.__file__])
    PDS = [I.plane_data(Material, n, energy=e) for n, e in ((2, 65.), (4, 50.), (5, 80.))]
    r = np.random.default_rng(0)
    for meth in METHODS:
        m = Maps(r, PDS[0], [0, 1], 9, 12, False, -60., 120.)
        expected(config(meth, [0, 1], 1, 6, 0.), m)


def config(method, seeds, ncpus, ndiv, chi):
    return NS(multiprocessing=ncpus, instrument=NS(hedm=NS(chi=chi)), find_orientations=NS(seed_search=NS(hkl_seeds=seeds, fiber_ndiv=ndiv, method=method)))


def expected(cfg, m):
    """spot by spot"""
    pd = m.planeData
    ss = cfg.find_orientations.seed_search
    (name, kw), = ss.method.items()
    out = []
    for s in ss.hkl_seeds:
        a = np.array(m.dataStore[s])
        med = np.median(a[~np.isnan(a)])
        a = np.where(np.isnan(a), med, a)
        a[a <= med] = med
        a -= a.min()
        n, coms = find_peaks_2d(a, name, kw)
        hkl = pd.getHKLs(int(m.iHKLList[s])).ravel().astype(float)
        tth = pd.getTTh()[pd.getHKLID(hkl.reshape(3, 1), master=False)]
        for i in range(n):
            if np.isnan(coms[i][0]):
                continue
            ome = m.omeEdges[0] + (0.5 + coms[i][0]) * (m.omegas[1] - m.omegas[0])
            eta = m.etaEdges[0] + (0.5 + coms[i][1]) * (m.etas[1] - m.etas[0])
            g = xfcapi.angles_to_gvec(np.array([[float(np.squeeze(tth)), eta, ome]]), chi=cfg.instrument.hedm.chi).T
            out.append(mutil.uniqueVectors(rot.discreteFiber(hkl.reshape(3, 1), g, B=pd.latVecOps['B'], ndiv=ss.fiber_ndiv, invert=False, csym=pd.laueGroup)[0]))
    return out


def run(ch, ctx):
    jobs = []
    for j in range(ch.between(1, 4)):
        r = np.random.default_rng(ch.bits())
        pd = ch.pick(PDS)
        ids = [int(i) for i in r.permutation(np.flatnonzero(~np.asarray(pd.exclusions)))[:ch.between(1, 4)]]
        m = Maps(r, pd, ids, ch.pick([9, 14, 5]), ch.pick([8, 14, 5]), ch.chance(0.3), -60., 120.)
        m.dataStore = list(m.dataStore) if ch.chance(0.5) else m.dataStore
        seeds = [int(i) for i in r.permutation(len(ids))[:ch.between(1, len(ids))]]
        ncpu = ch.pick([2, 3, 4, 6, 9, 1])
        jobs.append((config(ch.pick(METHODS), seeds, ncpu, ch.pick([6, 2, 12]), ch.pick([0., 0.02])), m))
        ctx.say('run', j, 'hkls', ids, 'seeds', seeds, 'processes', ncpu, jobs[-1][0].find_orientations.seed_search.method)
    pol = procs.Policy(ch)
    if ch.chance(0.25, 'f'):
        pol.raise_p = 0.15
        pol.max_faults = 2

    def body():
        for j, (cfg, m) in enumerate(jobs):
            before = pol.faults
            d0 = np.array(m.dataStore)
            want = expected(cfg, m)
            try:
                got = fo.generate_orientation_fibers(cfg, m)
            except core.InjectedError:
                ctx.require(pol.faults > before, 'spurious', f'run {j} failed without a fault')
                ctx.probe('failed')
                continue
            except ValueError as e:
                ctx.require(not want, 'spurious', f'run {j} raised {e!r}')
                ctx.probe('no-spots')
                continue
            finally:
                ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left')
            ctx.require(pol.faults == before, 'swallowed', f'run {j}: a worker failed and orientations were returned')
            ctx.require(C.same(np.array(m.dataStore), d0), 'input-changed', 'the maps were changed')
            ctx.evals += 1
            if not want:
                ctx.require(np.size(got) == 0, 'orientations', f'run {j}: orientations without spots')
                continue
            ctx.require(C.same(got, np.hstack(want)), 'orientations', lambda: f'run {j}: {C.describe_diff(got, np.hstack(want))}')
            ctx.probe('spots', len(want))
    ctx.sim(body, policy=pol)
