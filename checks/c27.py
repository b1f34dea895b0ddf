"""C27 an orientation search gives the same grains for any processes and map history."""
import errno
import logging
import os
from pathlib import Path
from types import SimpleNamespace as NS

import numpy as np
from scipy import ndimage

from . import c14
from . import common as C
from . import instr as I
from sim import core, disk, procs

TECHNIQUE = 'seeded histories of whole searches (maps computed, loaded, deleted, torn, killed or failing while being saved) with seeded thread and process-pool schedules and raising workers, against one stage-by-stage serial evaluation'
QUICK, THOROUGH = 320, 20000
RULE = ('Each run takes one data set (1-2 panels, 10-36 frames) and one set of search settings (hkls, map filter, spot finder or quaternion grid, thresholds, clustering algorithm) and runs find_orientations 2-5 times, '
        'with or without the clean option, on 1-6 worker processes and 1-4 threads, after the maps file was kept, deleted or torn, or after a search that was killed or met a failing disk at any file operation; some workers raise.')
REAL = ['hexrd.hedm.findorientations: find_orientations, load_eta_ome_maps, generate_eta_ome_maps, filter_maps_if_requested, generate_orientation_fibers, create_clustering_parameters, run_cluster',
        'EtaOmeMaps, GenerateEtaOmeMaps, HEDMInstrument.extract_polar_maps, indexer.paintGrid', 'numpy zip files on a real disk', 'worker code in forked processes', 'scikit-learn and scipy clustering']
STUB = ['process pool (chunk assignment, durations, completion order)', 'thread scheduler and locks', 'the config object (plain attributes)', 'in-memory images',
        'file-system calls below the scratch directory pass the LD_PRELOAD fault seam', 'the random numbers of the neighbourhood estimate are seeded', 'joblib runs in sequence']
ASSUME = ['all searches of a run use the same settings (saved maps are documented to be used as they are)', 'map extraction, scoring and one spot\'s fibre are the repository\'s own, called serially (C09, C13, C14 decide them)']


def setup():
    global fo, ix, Omega, HEDM, PDS, Generate, joblib
    c14.setup()
    import joblib
    logging.disable(logging.CRITICAL)
    Material, HEDM, Omega = I.load()
    from hexrd.hedm import findorientations as fo, indexer as ix
    from hexrd.hedm.instrument import GenerateEtaOmeMaps as Generate
    core.watch([fo.__file__])
    PDS = [I.plane_data(Material, n, energy=e, width=1.2) for n, e in ((3, 65.), (4, 50.), (2, 80.))]
    for alg in ('dbscan', 'fclusterdata'):
        reference(*data_set(np.random.default_rng(0), PDS[0], 1, 12, 30., None), Settings(alg=alg))


class Settings:
    def __init__(self, **kw):
        self.__dict__.update(dict(alg='dbscan', filt=False, hkls=None, active=None, seeds=[0], method={'label': {'filter_radius': 1, 'threshold': 1.}}, ndiv=6, eta_step=30., image_thr=None,
                                  thr=20., compl=0.3, radius=3., etol=15., otol=15., erange=[[-180, 180]], grid=None, chi=0.))
        self.__dict__.update(kw)


def data_set(r, pd, npan, nf, step, chi):
    panels, imsd, arrays = {}, {}, {}
    om = np.stack([-60. + step * np.arange(nf), -60. + step * np.arange(1, nf + 1)], axis=1)
    n = 30 if npan == 1 else 24
    for i in range(npan):
        name = ['ge', 'pixi'][i]
        panels[name] = I.panel_config(r, n, n if npan == 1 else n // 2, center=(0, 0) if npan == 1 else (30 * (2 * i - 1), 0), dist=320., size=5., tilt=.01)
        a = r.integers(0, 20, (nf, panels[name]['pixels']['rows'], panels[name]['pixels']['columns'])).astype('float64')
        hot = r.random(a.shape) < 0.01
        a[hot] = r.uniform(60, 400, hot.sum())
        imsd[name] = Omega(C.source_series(a, {'omega': om.copy()}))
    return I.instrument_config(panels, chi=chi or 0.), imsd, pd, om


def config(inscfg, imsd, pd, om, s, ncpu, threads, path, tmp):
    ins = HEDM(inscfg)
    ins.max_workers = threads
    return NS(analysis_dir=Path(tmp) / 'analysis', multiprocessing=ncpu, material=NS(plane_data=pd), image_series=imsd, instrument=NS(hedm=ins),
              find_orientations=NS(eta=NS(range=np.array(s.erange, float), tolerance=s.etol), omega=NS(tolerance=s.otol, period=om[0, 0] + np.r_[0., 360.]), threshold=s.thr,
                                   orientation_maps=NS(file=path, threshold=s.image_thr, filter_maps=s.filt, active_hkls=s.active, eta_step=s.eta_step),
                                   clustering=NS(completeness=s.compl, algorithm=s.alg, radius=s.radius), use_quaternion_grid=s.grid,
                                   seed_search=NS(hkl_seeds=list(s.seeds), fiber_ndiv=s.ndiv, method=s.method)))


def reference(inscfg, imsd, pd, om, s):
    """stage by stage, serially, without any file"""
    cfg = config(inscfg, imsd, pd, om, s, 1, 1, None, '.')
    ids = s.hkls if s.hkls else s.active
    if ids is None:
        ids = pd.getHKLID(pd.hkls, master=True)
    g = Generate(imsd, cfg.instrument.hedm, pd, active_hkls=[int(i) for i in ids], eta_step=s.eta_step, threshold=s.image_thr)
    maps = [np.array(m, float) for m in g.dataStore]
    if s.filt:
        maps = [m - np.nanmedian(m, axis=0) for m in maps]
        if s.filt is not True:
            maps = [-ndimage.gaussian_laplace(m, s.filt / (2 * np.sqrt(2 * np.log(2)))) for m in maps]
    m = NS(dataStore=maps, planeData=pd, iHKLList=np.array(ids), etaEdges=g.etaEdges, omeEdges=g.omeEdges, etas=g.etas, omegas=g.omegas)
    if s.grid is None:
        f = c14.expected(cfg, m)
        if not f:
            return None
        q = np.hstack(f)
    else:
        q = np.load(s.grid)
    sc = np.array(ix.paintGrid(q, m, etaRange=np.radians(cfg.find_orientations.eta.range), omeTol=np.radians(s.otol), etaTol=np.radians(s.etol),
                               omePeriod=np.radians(cfg.find_orientations.omega.period), threshold=s.thr, doMultiProc=False, nCPUs=1))
    if (sc > s.compl).sum() > 90:
        # leave the best for clustering
        s.compl = float(np.sort(sc)[-90])
        cfg.find_orientations.clustering.completeness = s.compl
    ms = 1
    with joblib.parallel_config('sequential'):
        if s.grid is None:
            np.random.seed(5)
            ms = fo.create_clustering_parameters(cfg, m)[0]
        qbar = fo.run_cluster(sc, q, pd.q_sym, cfg, min_samples=ms, compl_thresh=s.compl, radius=s.radius)[0]
    return q, sc, qbar


def run(ch, ctx):
    r = np.random.default_rng(ch.bits())
    pd = ch.pick(PDS)
    step = ch.pick([10., 30., 15., 6.])
    nf = min(ch.pick([12, 24, 36]), int(360 / step))
    ds = data_set(r, pd, ch.pick([1, 1, 2]), nf, step, ch.pick([0., 0.02]))
    allowed = [int(i) for i in np.flatnonzero(~np.asarray(pd.exclusions))]
    ids = [int(i) for i in r.permutation(allowed)[:ch.between(1, len(allowed))]]
    how = ch.pick(['all', 'active', 'override', 'override-vectors'])
    n = len(allowed) if how == 'all' else len(ids)
    s = Settings(alg=ch.pick(['dbscan', 'ort-dbscan', 'sph-dbscan', 'fclusterdata']), filt=ch.pick([True, False, 1.5, True]), seeds=[int(i) for i in r.permutation(n)[:ch.between(1, n)]],
                 method=ch.pick(c14.METHODS[:3]), ndiv=ch.pick([6, 3, 10]), eta_step=ch.pick([30., 20., 45.]), image_thr=ch.pick([None, 30.]), thr=ch.pick([20., 5., 100.]),
                 compl=ch.pick([0.3, 0.05, 0.6]), radius=ch.pick([3., 8., 15., 30., 1.]), etol=ch.pick([15., 5., 40.]), otol=ch.pick([15., 5.]), erange=ch.pick([[[-180, 180]], [[-85, 85], [95, 265]]]))
    if how == 'active':
        s.active = ids
    elif how != 'all':
        s.hkls = ids
    if ch.chance(0.25):
        s.grid = os.path.join(ctx.tmp, 'grid.npy')
        q = r.normal(size=(4, ch.pick([40, 7, 1, 150])))
        np.save(s.grid, q / np.linalg.norm(q, axis=0))
    ctx.say('panels', list(ds[1]), 'frames', nf, 'step', step, how, ids, {k: v if k != 'grid' else bool(v) for k, v in vars(s).items()})
    want = reference(*ds, s)
    if want is not None and np.isnan(np.hstack([x.ravel() for x in want[:2]])).any():
        s.filt = bool(s.filt)
        want = reference(*ds, s)
    hkls = s.hkls
    if how == 'override-vectors':
        hkls = pd.getHKLs(*ids).tolist()
    path = Path(ctx.tmp) / ch.pick(['maps.npz', 'a b-eta.ome_maps.npz'])
    doubt = False      # what is in the maps file may be torn
    for j in range(ch.between(2, 5)):
        before = ch.pick(['keep', 'keep', 'delete', 'tear', 'crash', 'torn', 'sticky', 'once'], 'f') if j else ch.pick(['keep', 'crash', 'torn'], 'f')
        if before == 'delete':
            if path.exists():
                os.remove(path)
            doubt = False
        elif before == 'tear':
            if path.exists():
                size = os.path.getsize(path)
                os.truncate(path, ch.below(size, 'f'))
                doubt = True
                ctx.fault('torn-file')
        elif before != 'keep':
            act = {'crash': disk.CRASH, 'torn': disk.TORN, 'sticky': disk.STICKY, 'once': disk.FAIL}[before]
            k = 1 + ch.below(60, 'f')
            cl = ch.chance(0.6)
            ctx.say('search', j, 'first a search with', before, 'at operation', k, 'clean', cl)
            o = disk.node(lambda: search(ds, s, hkls, cl, 1, 1, path, ctx), [(disk.MUT, k, act, ch.pick([errno.ENOSPC, errno.EIO], 'f'))])
            for nm, c in o.fired.items():
                ctx.fault(nm, c)
            if o.kind == 'ok':
                ctx.require(not (o.fired and before == 'sticky'), 'silent-failure', f'the disk failed for good at operation {k} and the search returned normally')
                judge(ctx, f'search on a disk with {before}', o.value, want)
                doubt = False if cl else doubt
            elif o.kind == 'raised':
                ctx.require(o.fired or doubt or want is None, 'spurious', f'{before}: {o}')
                doubt = doubt or bool(o.fired)
            else:
                ctx.require(o.code == 77, 'died', f'{o}')
                ctx.probe('killed')
                doubt = True
        clean = ch.chance(0.5)
        ncpu, threads = ch.pick([2, 1, 3, 6]), ch.pick([1, 2, 4])
        pol = procs.Policy(ch)
        if ch.chance(0.15, 'f'):
            pol.raise_p = 0.2
            pol.max_faults = 1
        had = path.exists()
        ctx.say('search', j, 'after', before, 'clean', clean, 'processes', ncpu, 'threads', threads, 'maps file', had)
        res = []

        def body():
            try:
                res.append(('ok', search(ds, s, hkls, clean, ncpu, threads, path, ctx)))
            except core.InjectedError:
                res.append(('failed', None))
            except Exception as e:
                res.append(('raised', f'{type(e).__name__}: {e}'[:200]))
            ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left')
        ctx.sim(body, policy=pol)
        kind, v = res[0]
        ctx.evals += 1
        if kind == 'ok':
            ctx.require(not pol.faults, 'swallowed', f'search {j}: a worker failed and grains were returned')
            judge(ctx, f'search {j} ({"clean" if clean else "loaded" if had else "computed"} maps, {ncpu} processes)', v, want)
            ctx.probe('clean' if clean else 'loaded' if had else 'computed')
            doubt = doubt and not clean and had
        elif kind == 'failed':
            ctx.require(pol.faults, 'spurious', 'failed without a fault')
            ctx.probe('worker-failed')
            doubt = doubt and not clean and had
        else:
            ctx.require(want is None or pol.faults or (doubt and not clean), 'spurious', f'search {j} ({"clean" if clean else "loaded" if had else "computed"} maps) raised {v}')
            ctx.probe('refused')


def search(ds, s, hkls, clean, ncpu, threads, path, ctx):
    inscfg, imsd, pd, om = ds
    cfg = config(inscfg, imsd, pd, om, s, ncpu, threads, path, ctx.tmp)
    np.random.seed(5)
    with joblib.parallel_config('sequential'):
        res = fo.find_orientations(cfg, hkls=None if hkls is None else list(hkls), clean=clean)
    so = res['scored_orientations']
    return np.array(so['test_quaternions']), np.array(so['score']), np.array(res['qbar'])


def judge(ctx, what, got, want):
    ctx.require(want is not None, 'found', f'{what}: found orientations in maps without spots')
    for nm, a, b in zip(('trial orientations', 'scores', 'grains'), got, want):
        ctx.evals += 1
        ctx.require(a.shape == b.shape, nm, f'{what}: {nm} have shape {a.shape}, expected {b.shape}')
        ctx.require(np.allclose(a, b, rtol=0, atol=1e-9, equal_nan=True), nm, lambda: f'{what}: {nm}: {C.describe_diff(a, b)}')
    ctx.probe('grains', int(got[2].size / 4) > 0)
