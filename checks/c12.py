"""C12 pinhole angle correction is independent of worker threads."""
import numpy as np

from . import common as C
from . import instr as I
from sim import core

TECHNIQUE = 'seeded thread interleavings at bytecode granularity, with failing allocations in worker threads, against a column-by-column single-worker evaluation'
QUICK, THOROUGH = 700, 40000
RULE = ('Each run computes 1-3 pinhole-corrected angle grids (direct, per-detector map, several panels over one polar grid, or scattered points) with 2-9 worker threads, from one or two calling threads with their own '
        'instruments; the simulator pre-empts threads between bytecodes of the correction code; in some runs an allocation fails at a chosen bytecode of a worker thread. Each grid is compared column by column with a '
        'single-worker computation, and with a second computation on a different number of workers, bit for bit.')
REAL = ['hexrd.hed.xrdutil.phutil: calc_tth_rygg_pinhole, tth_corr_map_rygg_pinhole, polar_tth_corr_map_rygg_pinhole, RyggPinholeDistortion', 'distribute_tasks', 'ThreadPoolExecutor', 'compiled correction kernel']
STUB = ['thread scheduler and locks']
ASSUME = ['the compiled correction kernel agrees with its interpreted form to rounding (1e-8 relative)']


def setup():
    global ph, HEDM, conc
    np.seterr(all='ignore')
    _, HEDM, _ = I.load()
    from hexrd.hed.xrdutil import phutil as ph
    from hexrd.core.utils import concurrent as conc
    core.watch([ph.__file__, conc.__file__])
    ins = instrument(np.random.default_rng(0), ['IMAGE-PLATE-4'], [(4, 5)], 1.)
    ins.max_workers = 2
    p = list(ins.detectors.values())[0]
    tth, eta = p.pixel_angles()
    ph.calc_tth_rygg_pinhole(p, 100., tth, eta, 0.1, 0.2, 6)
    ph.RyggPinholeDistortion(p, 100., .1, .2, 6).apply(np.zeros((3, 2)))
    ins.max_workers = 1
    ph.calc_tth_rygg_pinhole(p, 100., tth, eta, 0.1, 0.2, 6)
    ph.RyggPinholeDistortion(p, 100., .1, .2, 6).apply(np.zeros((3, 2)))


def instrument(r, names, shapes, size):
    pan = {}
    for i, (n, s) in enumerate(zip(names, shapes)):
        pan[n] = I.panel_config(r, *s, center=(r.uniform(-3, 3) + 25 * i, r.uniform(-3, 3)), dist=float(r.uniform(25, 60)), size=size, tilt=0.2)
    beams = {'energy': 10., 'vector': {'azimuth': float(r.uniform(0, 360)), 'polar_angle': float(r.uniform(95, 140))}, 'source_distance': float(r.uniform(15, 40))}
    return HEDM(I.instrument_config(pan, beams=beams))


def close(a, b):
    return a.shape == b.shape and bool(np.all(np.isnan(a) == np.isnan(b))) and bool(np.allclose(a, b, rtol=1e-8, atol=1e-10, equal_nan=True))


def run(ch, ctx):
    jobs = []
    for j in range(ch.between(1, 3)):
        r = np.random.default_rng(ch.bits())
        n = ch.pick([1, 2, 3])
        names = [['IMAGE-PLATE-4', 'IMAGE-PLATE-2', 'IMAGE-PLATE-3'], ['IMAGE-PLATE-B', 'IMAGE-PLATE-D', 'IMAGE-PLATE-L'], ['fiddle_a', 'b', 'c']][ch.below(3)][:n]
        shapes = [(ch.between(1, 7), ch.between(2, 11)) for _ in names]
        seed = ch.bits()
        size = ch.pick([1., 2.])
        ins, ref = [instrument(np.random.default_rng(seed), names, shapes, size) for _ in range(2)]
        kind = ch.pick(['polar', 'grid', 'map', 'points'])
        args = dict(absorption_length=float(r.uniform(20, 300)), pinhole_thickness=float(r.uniform(.05, .3)), pinhole_radius=float(r.uniform(.1, .4)), num_phi_elements=ch.pick([6, 3, 10]))
        tth = eta = None
        if kind in ('polar', 'grid'):
            g = list(ref.detectors.values())[0]
            a, b = [x.copy() for x in g.pixel_angles()]
            if kind == 'polar':
                tth, eta = np.meshgrid(np.linspace(a.min(), a.max(), ch.between(2, 12)), np.linspace(b.min(), b.max(), ch.between(1, 6)))
            else:
                tth, eta = a, b
                tth = tth + r.uniform(-0.02, 0.02, tth.shape)
            if ch.chance(0.3):
                m = r.random(tth.shape) < 0.3
                tth[m] = np.nan
                if ch.chance(0.5):
                    eta[m] = np.nan
        elif kind == 'points':
            g = list(ref.detectors.values())[0]
            tth = r.uniform(-1.2, 1.2, (ch.between(1, 8), 2)) * [g.col_dim / 2, g.row_dim / 2]
        w1 = ch.pick([2, 3, 4, 6, 9])
        w2 = ch.pick([x for x in (2, 3, 5, 8) if x != w1])
        ctx.say('job', j, kind, 'panels', names, shapes, 'grid', None if tth is None else tth.shape, 'workers', w1, w2)
        jobs.append((kind, ins, ref, tth, eta, args, w1, w2))
    fail = None
    if ch.chance(0.2, 'f'):
        mine = {ph.__file__, conc.__file__}
        fail = core.FailAfter(ch.between(1, 400, 'f'), lambda t, code: t.idx > 0 and not t.thread.name.startswith('client') and code.co_filename in mine)
    two = len(jobs) > 1 and ch.chance(0.4)

    def compute(kind, ins, tth, eta, args, w):
        ins.max_workers = w
        for p in ins.detectors.values():
            if p.max_workers != w:
                p.max_workers = w
        pans = list(ins.detectors.values())
        if kind == 'map':
            m = ph.tth_corr_map_rygg_pinhole(ins, **args)
            ctx.require(list(m) == list(ins.detectors), 'panels', str(list(m)))
            return list(m.values())
        if kind == 'points':
            return [ph.RyggPinholeDistortion(pans[0], **args).apply(tth)]
        if kind == 'polar':
            return [ph.polar_tth_corr_map_rygg_pinhole(tth, eta, ins, **args)]
        return [ph.calc_tth_rygg_pinhole(pans if len(pans) > 1 else pans[0], tth=tth, eta=eta, **args)]

    def reference(kind, ins, tth, eta, args):
        if kind in ('points', 'map'):
            if kind == 'points':
                return compute(kind, ins, tth, eta, args, 1)
            out = []
            for p in ins.detectors.values():
                p.max_workers = 1
                a, b = p.pixel_angles()
                out.append(a - np.stack([ph.calc_tth_rygg_pinhole(p, tth=a[:, k].copy(), eta=b[:, k].copy(), **args) for k in range(a.shape[1])], axis=1))
            return out
        ins.max_workers = 1
        pans = list(ins.detectors.values())
        for p in pans:
            p.max_workers = 1
        g = np.stack([ph.calc_tth_rygg_pinhole(pans, tth=tth[:, k].copy(), eta=eta[:, k].copy(), **args) for k in range(tth.shape[1])], axis=1)
        return [g - tth if kind == 'polar' else g]

    def one(job, failed):
        kind, ins, ref, tth, eta, args, w1, w2 = job
        t0, e0 = (None if x is None else x.copy() for x in (tth, eta))
        evecs = [np.array(p.evec) for p in ins.detectors.values()]
        got = []
        for w in (w1, w2):
            before = 0 if fail is None else fail.fired
            try:
                g = compute(kind, ins, tth, eta, args, w)
            except MemoryError:
                ctx.require(fail is not None and fail.fired, 'spurious', 'failed without a fault')
                failed.append(1)
                ctx.probe('failed')
                g = None
            got.append(g)
            for x, x0 in ((tth, t0), (eta, e0)):
                ctx.require(x is None or C.same(x, x0), 'input-changed', 'the caller\'s angles were changed')
            for p, e in zip(ins.detectors.values(), evecs):
                ctx.require(C.same(np.array(p.evec), e), 'evec', 'the eta reference vector of a detector was changed')
        want = reference(kind, ref, tth, eta, args)
        for g, w in zip(got, (w1, w2)):
            if g is None:
                continue
            ctx.evals += 1
            for a, b in zip(g, want):
                ctx.require(close(a, b), 'grid', lambda: f'{kind} with {w} workers: {C.describe_diff(a, b)}')
        if got[0] is not None and got[1] is not None:
            for a, b in zip(*got):
                ctx.require(C.same(a, b), 'workers', lambda: f'{kind}: {w1} and {w2} workers differ: {C.describe_diff(a, b)}')

    def body():
        failed = []
        core.SIM.inject = fail
        if two:
            th = C.Threads()
            for job in jobs[:2]:
                th.go(one, job, failed, name='client%d' % len(th.ts))
            th.join()
            for job in jobs[2:]:
                one(job, failed)
        else:
            for job in jobs:
                one(job, failed)
        if fail is not None and fail.fired:
            ctx.fault('failing-allocation')
            ctx.require(failed, 'swallowed', 'an allocation failed in a worker thread and no call raised')
    ctx.sim(body)
