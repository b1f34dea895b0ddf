"""C09 eta-omega map extraction is independent of the worker threads."""
import numpy as np

from . import common as C
from . import instr as I
from sim import core

TECHNIQUE = 'seeded thread schedules of map extraction with stalled and failing frame reads against a direct histogram model and the single-worker result'
QUICK, THOROUGH = 1500, 60000
RULE = ('Each run makes a 1-3 panel instrument (planar/cylindrical, optional shared detector images cut by region), 1-14 frames of rotation images in 1-2 omega wedges, and extracts maps 1-3 times with 1-8 workers, '
        'different rings, thresholds and bin widths, pre-empting between and inside frame reads, with some frames failing to read; the combined eta-omega map object is built as well.')
REAL = ['HEDMInstrument.extract_polar_maps, _generate_ring_params, _run_histograms', 'distribute_tasks', 'GenerateEtaOmeMaps', 'OmegaImageSeries, ProcessedImageSeries, PlaneData, detectors']
STUB = ['thread scheduler and locks', 'in-memory image source with injected stalls and failures']
ASSUME = ['pixel angles and ring ranges come from the repository (decided elsewhere)', 'images are finite and non-negative']
DP = {'GE_41RT': [1e-3, 2e-3, -3e-3, 2., 2., 2.]}


def setup():
    global Material, HEDM, Omega, hi, gem, PDS, P
    Material, HEDM, Omega = I.load()
    from hexrd.core.instrument import hedm_instrument as hi
    from hexrd.core.imageseries import process, omega
    from hexrd.core.utils import concurrent
    from hexrd.hedm.instrument import generate_eta_omega_maps as gem
    P = process.ProcessedImageSeries
    core.watch([hi.__file__, gem.__file__, concurrent.__file__])
    PDS = {n: I.plane_data(Material, n) for n in (1, 2, 4)}
    # compile the kernels
    for kind in ('planar', 'cylindrical'):
        for d in (None, {'function_name': 'GE_41RT', 'parameters': DP['GE_41RT']}):
            ins = HEDM(I.instrument_config({'a': I.panel_config(np.random.default_rng(0), 4, 4, size=10., kind=kind, distortion=d)}))
            ims = Omega(C.source_series(np.ones((1, 4, 4)), {'omega': np.array([[0., 1.]])}))
            ins.extract_polar_maps(PDS[1], {'a': ims}, eta_tol=30.)


def model(data, ptth, peta, tthr, edges, threshold):
    """map of one ring by direct binning"""
    out = np.full((len(data), len(edges) - 1), np.nan)
    sel = (ptth >= tthr[0]) & (ptth <= tthr[1])
    eta = peta[sel]
    b = np.searchsorted(edges, eta, side='right') - 1
    b[eta == edges[-1]] = len(edges) - 2
    ok = (b >= 0) & (b < len(edges) - 1)
    for i, f in enumerate(data):
        v = f[sel].astype(float)
        if threshold is not None:
            v = np.where(v < threshold, 0., v)
        s = np.zeros(len(edges) - 1)
        n = np.zeros(len(edges) - 1, int)
        np.add.at(s, b[ok], v[ok])
        np.add.at(n, b[ok], 1)
        out[i, n > 0] = s[n > 0]
    return out


def make(ch, ctx):
    r = np.random.default_rng(ch.bits())
    np_ = ch.pick([1, 2, 3])
    shared = np_ > 1 and ch.chance(0.4)
    kind = ch.pick(['planar', 'planar', 'cylindrical'])
    size = ch.pick([2., 4.])
    panels, where = {}, {}
    full = [0, 0]
    for i in range(np_):
        rows, cols = ch.between(3, 14), ch.between(3, 14)
        roi = None
        if shared:
            roi = [[full[0], full[0] + rows], [i, i + cols]]
            full = [full[0] + rows, max(full[1], i + cols)]
        c = r.uniform(-20, 20, 2) if np_ == 1 else (25 * (i - 1), float(r.uniform(-10, 10)))
        dist = {'function_name': 'GE_41RT', 'parameters': list(DP['GE_41RT'])} if ch.chance(0.2) else None
        name = ['ge', 'pixi', 'hydra'][i]
        panels[name] = I.panel_config(r, rows, cols, center=c, dist=float(r.uniform(250, 350)) if kind == 'planar' else 60, size=size if kind == 'planar' else size / 2,
                                      kind=kind, distortion=dist, roi=None if roi is None else [q[0] for q in roi], group='grp' if shared else None)
        where[name] = roi
    nf = ch.pick([1, 2, 3, 4, 7, 9, 14])
    # omegas, in one or two wedges
    step = ch.pick([1.0, 0.25, 0.1, 1 / 3, 360 / nf])
    o0 = float(ch.pick([0., -60., 12.3]))
    lo = o0 + step * np.arange(nf)
    gap = 0
    if nf > 2 and step < 360 / nf and ch.chance(0.35):
        k = ch.between(1, nf - 1)
        gap = ch.between(1, 5)
        lo[k:] += gap * step
    om = np.stack([lo, lo + step], axis=1)
    dt = ch.pick(['uint16', 'float64', 'uint8', 'int32', 'float32'])

    def stack(shape):
        a = r.integers(0, 200, (nf,) + shape)
        a[r.random(a.shape) < 0.3] = 0
        return (a / ch.pick([1, 3, 8]) if dt[0] == 'f' else a).astype(dt)
    ads, data, imsd = [], {}, {}
    wrap = ch.below(3)
    resident, kept = ch.chance(0.3), []

    def series(a):
        s = C.source_series(a.copy(), {'omega': om.copy()})
        s._adapter.resident = resident
        ads.append(s._adapter)
        kept.append((s._adapter, a))
        if wrap == 1:
            s = P(s, [('flip', 'v')])
            a = a[:, :, ::-1]
        elif wrap == 2 and ch.chance(0.5):
            dark = np.full(a.shape[1:], 3.0)
            s = P(s, [('dark', dark)])
            a = (a - dark)
            a[a < 0] = 0
        return Omega(s), a
    if shared:
        key = ch.pick(['images', 'grp'])
        if key == 'images':
            key = hi.multi_ims_key
        s, a = series(stack(tuple(full)))
        imsd[key] = s
        for n, q in where.items():
            data[n] = a[:, q[0][0]:q[0][1], q[1][0]:q[1][1]]
    else:
        for n in panels:
            s, a = series(stack((panels[n]['pixels']['rows'], panels[n]['pixels']['columns'])))
            imsd[n], data[n] = s, a
    ctx.say('instrument', np_, kind, 'shared' if shared else 'own', 'frames', nf, dt, 'step', step, 'gap', gap, 'wrap', wrap)
    return panels, data, imsd, ads, om, step, gap, kept


def run(ch, ctx):
    panels, data, imsd, ads, om, step, gap, kept = make(ch, ctx)
    nf = len(om)
    cfg = I.instrument_config(panels)
    nact = ch.pick([1, 2, 4])
    pd = PDS[nact]
    calls = []
    for i in range(ch.between(1, 3)):
        calls.append(dict(workers=ch.pick([2, 3, 1, 5, 8, nf, nf + 1]), threshold=ch.pick([None, None, 20, 100.5, 0]), tth_tol=ch.pick([None, 0.4, 1.0, 0.1]), eta_tol=ch.pick([10., 30., 5., 3.]),
                          active=None if ch.chance(0.6) else [int(x) for x in np.random.default_rng(ch.bits()).permutation(nact)[:ch.between(1, nact)]],
                          fail={ch.below(nf, 'f')} if ch.chance(0.12) else set(), full=ch.chance(0.4)))

    def one(ins, n, c):
        ins.max_workers = c['workers']
        for a in ads:
            a.fail_at = set()
        bad = ads[ch.below(len(ads), 'f')]
        bad.fail_at = c['fail']
        ctx.say('call', n, {k: v for k, v in c.items() if k != 'fail'}, 'fails', sorted(c['fail']))
        act = None if c['active'] is None else list(c['active'])
        kw = dict(active_hkls=act, threshold=c['threshold'], tth_tol=c['tth_tol'], eta_tol=c['eta_tol'])
        if c['full'] and c['tth_tol'] is None:
            return full(ins, n, c, act)
        try:
            maps, edges = ins.extract_polar_maps(pd, imsd, **kw)
        except C.InjectedError:
            ctx.require(c['fail'], 'spurious', 'failed although no frame does')
            ctx.fault('frame-read-error')
            return None
        ctx.require(not c['fail'], 'swallowed', f'call {n}: frame {sorted(c["fail"])} failed to read and maps were returned')
        expect = model_maps(ins, c, edges)
        ctx.require(list(maps) == list(ins.detectors), 'panels', f'{list(maps)}')
        for k in maps:
            compare(f'call {n} panel {k}', maps[k], expect[k])
        return maps, edges

    def model_maps(ins, c, edges):
        neta = int(round(360 / c['eta_tol']))
        ctx.require(len(edges) == neta + 1 and np.allclose(np.diff(edges), np.radians(c['eta_tol'])), 'edges', f'{edges}')
        tr = pd.getTThRanges()
        ids = list(range(len(tr))) if c['active'] is None else c['active']
        out = {}
        for k, p in ins.detectors.items():
            ptth, peta = p.pixel_angles()
            out[k] = np.array([model(data[k], ptth, peta, tr[i], edges, c['threshold']) for i in ids])
        return out

    def compare(what, got, want):
        ctx.evals += 1
        got = np.asarray(got)
        ctx.require(got.shape == want.shape, 'shape', f'{what}: {got.shape}, expected {want.shape}')
        ctx.require(np.array_equal(np.isnan(got), np.isnan(want)), 'nan', f'{what}: other bins are empty: {C.describe_diff(np.isnan(got), np.isnan(want))}')
        scale = (np.nansum(want) + 1)
        ctx.require(np.all(np.abs(np.nan_to_num(got) - np.nan_to_num(want)) <= 1e-11 * scale), 'values', f'{what}: {C.describe_diff(got, want)}')

    def full(ins, n, c, act):
        try:
            g = gem.GenerateEtaOmeMaps(imsd, ins, pd, active_hkls=act, eta_step=c['eta_tol'], threshold=c['threshold'])
        except C.InjectedError:
            ctx.require(c['fail'], 'spurious', 'failed although no frame does')
            return None
        ctx.require(not c['fail'], 'swallowed', f'call {n}: a frame failed to read and maps were returned')
        ctx.probe('combined-maps')
        per = model_maps(ins, c, g.etaEdges)
        st = np.array(list(per.values()))
        tot = np.nansum(st, axis=0)
        tot[np.all(np.isnan(st), axis=0)] = np.nan
        if gap:
            # the frames lie on a grid of omegas with empty rows in between
            rows = np.round((om[:, 0] - om[0, 0]) / step).astype(int)
            w = np.full((tot.shape[0], rows[-1] + 1, tot.shape[2]), np.nan)
            w[:, rows] = tot
            tot = w
            ctx.probe('two-wedges')
        compare(f'call {n} combined', g.dataStore, tot)
        lo = om[0, 0] + step * np.arange(tot.shape[1])
        ctx.require(len(g.omegas) == tot.shape[1] and np.allclose(g.omegas, np.radians(lo + step / 2)), 'omegas', f'{np.degrees(g.omegas)} expected centres {lo + step / 2}')
        ctx.require(len(g.omeEdges) == tot.shape[1] + 1 and np.allclose(g.omeEdges, np.radians(np.r_[lo, lo[-1] + step])), 'omega-edges', f'{np.degrees(g.omeEdges)}')
        ctx.require(np.array_equal(g.iHKLList, np.arange(nact) if act is None else act), 'hkl-list', f'{g.iHKLList}')
        return None

    def body():
        ins = HEDM(cfg)
        res = []
        for n, c in enumerate(calls):
            pd.tThWidth = np.radians(0.6)
            res.append((c, one(ins, n, c)))
        # the same with one worker, bit for bit
        for c, r in res:
            if r is None:
                continue
            ins.max_workers = 1
            for a in ads:
                a.fail_at = set()
            maps, _ = ins.extract_polar_maps(pd, imsd, active_hkls=c['active'], threshold=c['threshold'], tth_tol=c['tth_tol'] or 0.6, eta_tol=c['eta_tol'])
            for k in maps:
                ctx.evals += 1
                ctx.require(C.same(maps[k], r[0][k]), 'serial-differs', f'panel {k}: {c["workers"]} workers and one worker differ: {C.describe_diff(r[0][k], maps[k])}')
        for a, was in kept:
            ctx.require(C.same(a._d, was), 'source-changed', f'extraction changed the frames of its image source: {C.describe_diff(a._d, was)}')
    ctx.sim(body)
