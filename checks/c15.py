"""C15 grain fitting is independent of process count, order and mode."""
import itertools
import logging
import os
import shutil
import tempfile
import warnings
from types import SimpleNamespace as NS

import numpy as np

from . import common as C
from . import instr as I
from sim import core, procs

TECHNIQUE = 'seeded process-pool schedules (worker assignment, durations, completion order, start method) over histories of fits, against a grain-by-grain reference fit'
QUICK, THOROUGH = 330, 20000
WALL_THOROUGH = 5400
RULE = ('Each run fits 1-3 grain tables (subsets and orders of grain ids, ids that are not row numbers, one or two panels, several tolerances and refits, grains with too few reflections, overlap tables for some grains) '
        'serially, in parallel or with a cancel callback that never fires, on 1-9 real workers (forked or spawned) behind a simulated pool that decides chunk assignment, durations and completion order.')
REAL = ['hexrd.hedm.fitgrains.fit_grains and fit_grain_FF_reduced', 'pull_spots and fitGrain', 'worker code in forked processes', 'spot files and overlap tables on the real filesystem']
STUB = ['process pool (chunk assignment, durations, completion order; a spawned worker is a fork with the package\'s globals reset)', 'thread scheduler, locks and clock', 'the config object (plain attributes)']
ASSUME = ['pull_spots, fitGrain and objFuncFitGrain are the repository\'s own, called serially for one grain at a time', 'images are synthetic']

FITS = [dict(tth=[2.], eta=[6.], omega=[6.], refit=None, npdiv=1), dict(tth=[2., 1.6], eta=[6., 5.], omega=[6., 4.], refit=[.1, .3], npdiv=1), dict(tth=[2.2], eta=[6.], omega=[4.], refit=[.3, .06], npdiv=2)]
LOST = 3             # grain with too few reflections
NGRAINS = 5
OUTSIDE = 5          # grain whose reflections miss the detectors


class World:
    pass


def make_world(r, npanel, Material, HI, OIS):
    from hexrd.core.imageseries import open as iopen
    w = World()
    n, step, px = 40, 3., 60
    edges = -60 + step * np.arange(n + 1)
    cfgs = {f'p{i}': I.panel_config(r, px, px // npanel, center=((i - .5) * 160. if npanel == 2 else 0., 0.), dist=300, size=5., tilt=0.01) for i in range(npanel)}
    w.inst = HI(I.instrument_config(cfgs))
    w.pd = I.plane_data(Material, 4)
    w.table = np.zeros((NGRAINS + 1, 21))
    for g in w.table:
        g[3:6] = r.uniform(-.5, .5, 3)
        g[9:12] = 1.
    w.table[OUTSIDE, 6] = 1e5
    imgs = {k: np.zeros((n,) + p.shape, np.float32) for k, p in w.inst.detectors.items()}
    rng = np.radians([-60, 60])
    for gi, g in enumerate(w.table):
        if gi in (LOST, OUTSIDE):
            continue
        sim = w.inst.simulate_rotation_series(w.pd, [g[3:15]], eta_ranges=[(-np.pi, np.pi)], ome_ranges=[tuple(rng)], ome_period=(rng[0], rng[0] + 2 * np.pi))
        for k, out in sim.items():
            im = imgs[k]
            ij = w.inst.detectors[k].cartToPixel(out[3][0], pixels=False)
            fr = (np.degrees(out[2][0][:, 2]) + 60) / step
            for (i, j), f in zip(ij, fr):
                for c in itertools.product(range(int(f) - 1, int(f) + 3), range(int(i) - 2, int(i) + 4), range(int(j) - 2, int(j) + 4)):
                    if all(0 <= x < s for x, s in zip(c, im.shape)):
                        im[c] += 200 * np.exp(-((c[1] - i)**2 + (c[2] - j)**2 + (c[0] + .5 - f)**2))
    for p in w.inst.detectors.values():
        p.saturation_level = 600.
    w.ims = {k: OIS(iopen(None, 'array', data=im, meta={'omega': np.vstack([edges[:-1], edges[1:]]).T})) for k, im in imgs.items()}
    w.table[:, 3:6] += r.uniform(-.003, .003, (NGRAINS + 1, 3))
    # reflections to take away from a grain
    w.overlaps = [{}, {(gi, k): sorted(int(x) for x in r.choice(14, 5, replace=False)) for gi in range(NGRAINS) for k in w.ims}]
    w.ref = {}
    return w


def config(w, fit, ncpus, adir):
    f = FITS[fit]
    return NS(image_series=w.ims, instrument=NS(hedm=w.inst), find_orientations=NS(eta=NS(range=np.array([[-180., 180.]]))), multiprocessing=ncpus,
              fit_grains=NS(threshold=5, tolerance=NS(tth=f['tth'], eta=f['eta'], omega=f['omega']), npdiv=f['npdiv'], refit=f['refit']), material=NS(plane_data=w.pd), analysis_dir=adir)


def reference(w, gi, fit, ov, adir):
    """one grain, written out plainly: (completeness, chisq, parameters), spots, {panel: bytes of the spot file}"""
    f = FITS[fit]
    period = np.radians(-60 + np.r_[0., 360.])
    gp = w.table[gi, 3:15].copy()
    B, wl = w.pd.latVecOps['B'], w.pd.wavelength

    def chi(p, res):
        return F.objFuncFitGrain(p[F.gFlag_ref], p, F.gFlag_ref, w.inst, res, B, wl, period, simOnly=False, return_value_flag=2)
    done = None
    for tt, et, om in zip(f['tth'], f['eta'], f['omega']):
        compl, res = w.inst.pull_spots(w.pd, gp, w.ims, tth_tol=tt, eta_tol=et, ome_tol=om, npdiv=f['npdiv'], threshold=5, eta_ranges=np.radians([[-180., 180.]]), ome_period=period,
                                       dirname=adir, filename='ref.out', return_spot_list=False, check_only=False, interp='nearest')
        keep = {k: [s for s in v if s[0] >= 0 and s[4] < 600. and int(s[0]) not in w.overlaps[ov].get((gi, k), ())] for k, v in res.items()}
        nv = sum(s[0] >= 0 for v in res.values() for s in v)
        total = sum(len(v) for v in res.values())
        if not total:
            return 'RuntimeError'
        if nv <= 12:
            done = (nv / total, np.inf, gp)
            break
        gp = F.fitGrain(gp, w.inst, keep, B, wl)
        x2 = chi(gp, keep)
    if done is None:
        if f['refit'] is not None:
            calc = F.objFuncFitGrain(gp[F.gFlag_ref], gp, F.gFlag_ref, w.inst, keep, B, wl, period, simOnly=True, return_value_flag=2)
            kept = {}
            for k, v in keep.items():
                kept[k] = []
                for n, s in enumerate(v):
                    p = w.inst.detectors[k]
                    dx, dy = np.abs(s[7] - calc[k]['calc_xy'][n])
                    dome = np.degrees(rot.angularDifference(np.atleast_1d(s[6][-1]), np.atleast_1d(calc[k]['calc_omes'][n])))[0]
                    if dx <= f['refit'][0] * p.pixel_size_col and dy <= f['refit'][0] * p.pixel_size_row and dome <= f['refit'][1] * 3.:
                        kept[k].append(s)
            kept = {k: v for k, v in kept.items() if keep[k]}
            if sum(map(len, kept.values())) > 12:
                gp = F.fitGrain(gp, w.inst, kept, B, wl)
                x2 = chi(gp, kept)
        done = (nv / total, x2, gp)
    files = {k: open(os.path.join(adir, k, 'ref.out'), 'rb').read() for k in w.ims if os.path.exists(os.path.join(adir, k, 'ref.out'))}
    return tuple(np.array(x) for x in done), (compl, res), files


def setup(npanels=(1, 2), fits=(0, 1, 2)):
    global F, fg, rot, WORLDS, CONTEXTS
    C.set_cpus(6)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    logging.disable(logging.WARNING)
    Material, HI, OIS = I.load()
    import multiprocessing
    from hexrd.core import constants, rotations as rot
    from hexrd.hedm import fitgrains as fg
    from hexrd.hedm.fitting import grains as F
    core.watch([fg.__file__])
    CONTEXTS = {m: multiprocessing.get_context(m) for m in ('fork', 'spawn')}
    r = np.random.default_rng(5)
    WORLDS = [make_world(r, n, Material, HI, OIS) for n in npanels]
    tmp = tempfile.mkdtemp(prefix='fit')
    try:
        for w in WORLDS:
            for t in range(300, 2000, 50):
                w.table[LOST, 6] = t / 2
                ref = reference(w, LOST, 0, 0, tmp)
                if not np.isfinite(ref[0][1]):
                    break
            for gi, fit, ov in itertools.product(range(NGRAINS + 1), fits, (0, 1)):
                if ov and gi == LOST:
                    w.ref[gi, fit, ov] = w.ref[gi, fit, 0]
                else:
                    w.ref[gi, fit, ov] = reference(w, gi, fit, ov, tmp)
    finally:
        shutil.rmtree(tmp)
    for w in WORLDS:
        assert w.ref[OUTSIDE, 0, 0] == 'RuntimeError'
        assert not np.isfinite(w.ref[LOST, 0, 0][0][1]), w.ref[LOST, 0, 0][0]
        assert all(np.isfinite(w.ref[g, f, o][0][1]) for g in range(3) for f in fits for o in (0, 1))


class Job:
    """one call of fit_grains, with its expected results"""

    def __init__(self, ch, ctx, j, fits=(0, 1, 2), members=range(NGRAINS), maxn=6):
        self.w = w = ch.pick(WORLDS)
        self.fit = ch.pick(fits)
        self.ov = int(ch.chance(0.3))
        r = np.random.default_rng(ch.bits())
        n = ch.between(1, maxn)
        rows = [int(r.choice(list(members))) for _ in range(n)]
        ids = {0: np.arange(n), 1: r.permutation(n), 2: r.permutation(60)[:n]}[ch.pick([0, 0, 1, 2])]
        self.table = w.table[rows].copy()
        self.table[:, 0] = ids
        self.sub = None
        if ch.chance(0.4):
            self.sub = [int(i) for i in r.permutation(ids)[:ch.between(1, n)]]
            if ch.chance(0.2):
                self.sub.append(self.sub[0])
        self.order = [int(i) for i in (ids if self.sub is None else self.sub)]
        self.rows = {int(i): g for i, g in zip(ids, rows)}
        self.ncpus = ch.pick([2, 3, 1, 4, 9])
        self.method = ch.pick(['fork', 'fork', 'spawn'])
        self.write = ch.chance(0.4)
        self.spots = ch.chance(0.3)
        self.dir = os.path.abspath(f'analysis{j}')
        os.mkdir(self.dir)
        if self.ov:
            for k in w.ims:
                rws = [(i, x) for i, g in self.rows.items() for x in w.overlaps[1].get((g, k), ())]
                rws += [(int(i) + 77, int(x)) for i, x in zip(r.integers(0, 60, 5), r.integers(0, 30, 5))]     # of grains that are not fitted
                rws += [(i, 5000) for i in list(self.rows)[:1]]                                                 # not a reflection of this panel
                half = len(rws) // 2
                os.makedirs(os.path.join(self.dir, k), exist_ok=True)
                rws = [rws[i] for i in r.permutation(len(rws))]
                np.savez(os.path.join(self.dir, k, fg.OVERLAP_TABLE_FILE), a=np.array([rws[:half]], float), b=np.array([rws[half:]], float))
        ctx.say('fit', j, 'panels', len(w.ims), 'rows', rows, 'ids', list(map(int, ids)), 'of', self.sub, 'processes', self.ncpus, self.method, 'settings', self.fit, 'overlaps', self.ov, 'files', self.write)

    def expect(self, i):
        return self.w.ref[self.rows[i], self.fit, self.ov]

    def call(self, cancel=None):
        constants = fg.constants
        old = constants.mp_context
        constants.mp_context = CONTEXTS[self.method]
        self.t0 = self.table.copy()
        try:
            return fg.fit_grains(config(self.w, self.fit, self.ncpus, self.dir), self.table, ids_to_refine=self.sub, write_spots_files=self.write, check_if_canceled_func=cancel, return_pull_spots_data=self.spots)
        finally:
            constants.mp_context = old

    def check(self, ctx, got, j):
        ctx.evals += 1
        data = None
        if self.spots:
            got, data = got
            ctx.require(sorted(data) == sorted(set(self.order)), 'spots-data', lambda: f'fit {j}: spots of grains {sorted(data)}, fitted {sorted(self.order)}')
        ctx.require([int(x[0]) for x in got] == self.order, 'order', lambda: f'fit {j}: results for grains {[int(x[0]) for x in got]}, requested {self.order}')
        for res in got:
            i = int(res[0])
            want, spots, files = self.expect(i)
            ctx.require(len(res) == 4 and all(C.same(np.array(a), b) for a, b in zip(res[1:], want)), 'values', lambda: f'fit {j} grain {i}: {res[1:]} instead of {want}')
            if data is not None:
                ctx.require(C.same(np.array(data[i][0]), np.array(spots[0])) and describe(data[i][1]) == describe(spots[1]), 'spots-data', f'fit {j}: the spot data of grain {i} are another grain\'s')
        seen = sorted((k, f) for k in self.w.ims if os.path.isdir(os.path.join(self.dir, k)) for f in os.listdir(os.path.join(self.dir, k)) if f != fg.OVERLAP_TABLE_FILE)
        want = {(k, fg.SPOTS_OUT_FILE % i): b for i in self.order for k, b in self.expect(i)[2].items()} if self.write else {}
        ctx.require(seen == sorted(want), 'files', lambda: f'fit {j}: spot files {seen}, expected {sorted(want)}')
        for (k, f), b in want.items():
            ctx.require(open(os.path.join(self.dir, k, f), 'rb').read() == b, 'files', f'fit {j}: {f} of panel {k} does not hold the spots of its grain')
        ctx.require(C.same(self.table, self.t0), 'input-changed', 'the grains table was changed')


def describe(spots):
    return {k: [[np.array(x).tobytes() if x is not None else None for x in s] for s in v] for k, v in spots.items()}


def run(ch, ctx):
    jobs = [Job(ch, ctx, j) for j in range(ch.between(1, 3))]
    modes = [ch.pick(['plain', 'cancellable']) for _ in jobs]

    def body():
        for j, (job, mode) in enumerate(zip(jobs, modes)):
            got = job.call((lambda: False) if mode == 'cancellable' else None)
            ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left')
            job.check(ctx, got, j)
            ctx.probe('serial' if mode == 'plain' and (job.ncpus == 1 or len(job.order) == 1) else job.method)
    ctx.sim(body)
