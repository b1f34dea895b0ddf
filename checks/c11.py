"""C11 line-position extraction is independent of its process pools."""
import io
import os
import sys

import numpy as np

from . import common as C
from . import instr as I
from sim import core, procs

TECHNIQUE = 'seeded schedules of nested process pools (panels, rings) with failing and killed workers against a serial evaluation'
QUICK, THOROUGH = 450, 20000
RULE = ('Each run extracts line positions 1-2 times from a 1-3 panel instrument (own or shared images, 1-4 images, planes or angle lists, all collapse and interpolation options, sometimes peak fitting) with 1-9 '
        'workers; real forked workers run the panels and, nested in them, the rings, behind simulated pools that decide assignment, durations and completion order; tasks raise and workers die at both levels.')
REAL = ['HEDMInstrument.extract_line_positions, _extract_detector_line_positions, _extract_ring_line_positions', '_parse_imgser_dict', 'ring, patch and interpolation code', 'fit_ring']
STUB = ['both levels of process pool (assignment, durations, completion, worker death)', 'thread scheduler and locks', 'progress bars (output discarded, monitor thread off)']
ASSUME = ['ring, patch and interpolation primitives are the repository\'s own, called serially']


def setup():
    global Material, HEDM, PlaneData, hi, xu, PDS, fu, P
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    Material, HEDM, _ = I.load()
    from hexrd.core.instrument import hedm_instrument as hi
    from hexrd.hedm import xrdutil as xu
    from hexrd.core.material.crystallography import PlaneData
    from hexrd.core.fitting import utils as fu, spectrum
    core.watch([hi.__file__])
    PDS = {n: I.plane_data(Material, n) for n in (1, 2, 4)}
    ins = HEDM(I.instrument_config({'a': I.panel_config(np.random.default_rng(0), 12, 12, size=5.)}))
    r = np.random.default_rng(1)
    np.seterr(all='ignore')
    for dt in ('float64', 'float32', 'uint16'):
        for k in range(2):
            im = (r.random((1, 14, 14)) * 99 + 1).astype(dt)
            im = im[:, 1:-1, 1:-1] if k else im[:, :12, :12].copy()
            for kw in (dict(do_fitting=True, fitting_kwargs=FIT), dict(do_interpolation=False), dict(collapse_tth=True)):
                got = expected(ins, {'a': im}, np.array([3.]), dict(tth_tol=2., npdiv=4, eta_tol=10., **kw))
                assert got['a'] and len(got['a'][0])


FIT = {'spectrum_kwargs': {'pktype': 'gaussian', 'bgtype': 'constant'}, 'int_cutoff': 0.01, 'fit_tth_tol': 50.}


def expected(ins, images, pd, kw):
    """the same extraction, one thing after another"""
    out = {}
    o = dict(eta_tol=1.0, npdiv=2, eta_centers=None, collapse_eta=True, collapse_tth=False, do_interpolation=True, do_fitting=False, tth_tol=None)
    o.update(kw)
    for name, panel in ins.detectors.items():
        ims = images[name]
        angs_, xys_, ranges = panel.make_powder_rings(pd, merge_hkls=True, delta_tth=o['tth_tol'], delta_eta=o['eta_tol'], eta_list=o['eta_centers'])
        if hasattr(pd, 'getMergedRanges'):
            p2 = PlaneData(None, pd)
            if o['tth_tol'] is not None:
                p2.tThWidth = np.radians(o['tth_tol'])
            tth0 = [np.degrees(pd.getTTh()[i]) for i in p2.getMergedRanges(cullDupl=True)[0]]
        else:
            tth0 = [np.array([x]) for x in pd]
        cfg = panel.config_dict(chi=ins.chi, tvec=ins.tvec, beam_energy=ins.beam_energy, beam_vector=ins.beam_vector, style='hdf5')
        rings = []
        for angs, xys, rg, t0 in zip(angs_, xys_, ranges, tth0):
            width = np.degrees(rg[1] - rg[0])
            if angs.ndim > 1 and xys.ndim > 1:
                ok = ~(np.isnan(xys) | np.isnan(angs)).all(axis=1)
                angs, xys = angs[ok], xys[ok]
            data = np.zeros((len(angs), len(ims))) if o['collapse_tth'] else []
            pat = list(xu.make_reflection_patches(cfg, angs, panel.angularPixelSize(xys), tth_tol=width, eta_tol=o['eta_tol'], npdiv=o['npdiv']))
            for k, (va, vx, conn, areas, xe, ij) in enumerate(pat):
                pts = np.stack([xe[0].ravel(), xe[1].ravel()], axis=1)
                if not panel.clip_to_panel(pts)[1].all():
                    continue
                fac = np.abs(areas) / float(panel.pixel_area)
                cen = (va[0][0, :-1] + va[0][0, 1:]) / 2
                vals, fits = [], []
                for j, im in enumerate(ims):
                    if o['do_interpolation']:
                        v = panel.interpolate_bilinear(pts, im).reshape(areas.shape) * fac
                    else:
                        v = im[ij[0], ij[1]] * fac
                    if v.max() == 0 or 1 - v.min() / v.max() < 0.01:
                        continue
                    if o['collapse_tth']:
                        data[k, j] = v.mean()
                    elif o['collapse_eta']:
                        vals.append(v.mean(axis=0))
                        if o['do_fitting']:
                            fits.append(fu.fit_ring(tth_centers=np.degrees(cen), lineout=vals[-1], tth_pred=t0, **o['fitting_kwargs']))
                    else:
                        vals.append(v)
                if not o['collapse_tth']:
                    a = (cen, angs[k][-1]) if o['collapse_eta'] else va
                    data.append([a, vals] + ([fits] if o['do_fitting'] and o['collapse_eta'] else []))
            rings.append(data)
        out[name] = rings
    return out


def diff(a, b, path=''):
    """first difference between nested results"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or np.isscalar(a) or np.isscalar(b):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind or not np.allclose(x, y, rtol=1e-10, atol=1e-12, equal_nan=True):
            return f'{path}: {C.describe_diff(x, y)}'
        return None
    if a is None or b is None:
        return None if a is b else f'{path}: {a} != {b}'
    if len(a) != len(b):
        return f'{path}: {len(a)} entries, expected {len(b)}'
    for i, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y, f'{path}[{i}]')
        if d:
            return d
    return None


def make(ch, ctx):
    r = np.random.default_rng(ch.bits())
    n = ch.pick([1, 2, 3])
    shared = n > 1 and ch.chance(0.35)
    kind = 'planar' if ch.chance(0.9) else 'cylindrical'
    panels, rois, full = {}, {}, [0, 0]
    for i in range(n):
        rows, cols = ch.between(8, 16), ch.between(8, 16)
        name = ['ge', 'pixi', 'hydra'][i]
        if shared:
            rois[name] = [[full[0], full[0] + rows], [i, i + cols]]
            full = [full[0] + rows, max(full[1], i + cols)]
        c = r.uniform(-5, 5, 2) + ((0, 0) if n == 1 else (30 * (i - 1), 0))
        panels[name] = I.panel_config(r, rows, cols, center=c, dist=float(r.uniform(250, 350)), size=float(ch.pick([4., 5.])), kind='planar', tilt=0.02,
                                      buffer=[2., 2.] if ch.chance(0.2) else None, roi=[q[0] for q in rois[name]] if shared else None, group='grp' if shared else None)
    three = ch.chance(0.5)
    k = ch.between(1, 4) if three else 1
    dt = ch.pick(['float64', 'uint16', 'float32'])

    def stack(shape):
        a = r.integers(1, 200, (k,) + shape)
        if ch.chance(0.2):
            a[0] = ch.pick([0, 7])          # flat image
        return a.astype(dt)
    ctx.say('instrument', n, 'shared' if shared else 'own', 'images', k, dt, three)
    if shared:
        a = stack(tuple(full))
        given = {ch.pick([hi.multi_ims_key, 'grp']): a if three else a[0]}
        images = {m: a[:, q[0][0]:q[0][1], q[1][0]:q[1][1]] for m, q in rois.items()}
    else:
        images = {m: stack((p['pixels']['rows'], p['pixels']['columns'])) for m, p in panels.items()}
        given = {m: a if three else a[0] for m, a in images.items()}
    return panels, images, given


def run(ch, ctx):
    panels, images, given = make(ch, ctx)
    ins = HEDM(I.instrument_config(panels, tvec=[0.1, 0, 0]))
    pol = procs.Policy(ch, sim_mode=ch.pick(['none', 'rare', 'medium', 'dense']))
    if ch.chance(0.25, 'f'):
        k = ch.below(4, 'f')
        if k == 0:
            pol.raise_p = 0.3
        elif k == 1:
            pol.kill_p = 0.3
        else:
            pol.sim_mode = 'rare'
            pol.nested = (0.2, 0.0) if k == 2 else (0.0, 0.2)
    calls = []
    for i in range(ch.between(1, 2)):
        if ch.chance(0.6):
            pd, kw = PDS[ch.pick([2, 1, 4])], {'tth_tol': ch.pick([None, 0.8, 3.0])}
        else:
            pd, kw = np.sort(np.random.default_rng(ch.bits()).uniform(3, 9, ch.between(1, 4))), {'tth_tol': ch.pick([0.8, 1.5])}
        kw.update(eta_tol=ch.pick([30., 20., 45.]), npdiv=ch.pick([1, 2]))
        if ch.chance(0.3):
            kw['eta_centers'] = np.random.default_rng(ch.bits()).uniform(-180, 180, ch.between(1, 6))
        kw['collapse_eta'], kw['collapse_tth'] = ch.pick([(True, False), (True, True), (False, False), (False, True)])
        kw['do_interpolation'] = ch.chance(0.7)
        if ch.chance(0.2):
            kw.update(do_fitting=True, fitting_kwargs=FIT, tth_tol=4., npdiv=ch.pick([4, 3]))
        w = ch.pick([2, 1, 3, 6, 9])
        width = ch.pick([0.6, 2.0, 0.3])
        calls.append((pd, kw, w, width))
        ctx.say('call', i, 'workers', w, ('planes', width) if hasattr(pd, 'getTTh') else pd, kw)

    def body():
        for i, (pd, kw, w, width) in enumerate(calls):
            if hasattr(pd, 'getTTh'):
                pd.tThWidth = np.radians(width)
            ins.max_workers = w
            before = pol.faults + pol.nested_faults
            old, sys.stderr = sys.stderr, io.StringIO()
            try:
                with np.errstate(all='ignore'):
                    got = ins.extract_line_positions(pd, dict(given), **kw)
            except (C.InjectedError, procs.cfp.BrokenProcessPool) as e:
                ctx.require(pol.faults + pol.nested_faults > before, 'spurious', f'call {i} failed without a fault: {e!r}')
                ctx.probe('failed')
                continue
            finally:
                sys.stderr = old
                ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left')
            ctx.require(pol.faults + pol.nested_faults == before, 'swallowed', f'call {i}: a worker failed and data were returned')
            if hasattr(pd, 'getTTh'):
                ctx.require(abs(pd.tThWidth - np.radians(width)) < 1e-12, 'width-kept', 'the two-theta width of the plane data changed')
            with np.errstate(all='ignore'):
                want = expected(ins, images, pd, kw)
            ctx.evals += 1
            ctx.require(list(got) == list(want), 'panels', f'{list(got)} expected {list(want)}')
            for k in want:
                d = diff(list(got[k]), want[k])
                ctx.require(d is None, 'data', lambda: f'call {i} panel {k}: {d}')
            ctx.probe('patches', sum(len(x) for v in want.values() for x in v))
    ctx.sim(body, policy=pol)
