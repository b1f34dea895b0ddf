"""C23 temporary settings are always restored, even when the work fails."""
import copy
import gc
import io
import os
import sys
import warnings

import numpy as np

from . import common as C
from . import instr as I
from sim import core

TECHNIQUE = 'seeded sequences of nested work under temporary settings with an exception injected at any point of the work, and thread schedules, against the settings recorded before'
QUICK, THOROUGH = 800, 120000
RULE = ('Each run builds an instrument with 1-3 beams and 1-2 detectors and performs 3-10 pieces of work under temporary settings: calibrator residuals, models, picks and corrections for a chosen beam, nested beam switches to depth 4, '
        'pinhole corrections, Euler-angle conversions, CIF output, functions under a numba thread limit in 1-3 scheduled threads, and generators abandoned part-way; the work succeeds, fails naturally, or has an exception '
        'injected at a seeded instruction of the working code. All settings are compared with those recorded before after every piece.')
REAL = ['hedm_instrument.switch_xray_source and active_beam_name', 'PowderCalibrator, LaueCalibrator, StructurelessCalibrator, InstrumentCalibrator (core, powder and laue copies)', 'phutil pinhole corrections', 'limit_numba_threads', 'redirect_stdout_to_logger and Material.write_cif', 'ignore_warnings and the rotations using it']
STUB = ['thread scheduler (pre-emption points)', 'injected exceptions']
ASSUME = ['exceptions are raised in the protected work, not inside the context-manager machinery or a setter that changes the setting', 'numpy error state is compared only where nothing was injected inside it',
          'standard output and warning filters belong to the process: no concurrency is claimed for them', 'the plane-data two-theta width set by extract_polar_maps is documented as lasting']


class Injected(BaseException):
    pass


class Boom(Exception):
    pass


MACHINERY = {'active_beam_name', '_update_panel_beams', 'switch_xray_source', 'bvec', 'xrs_dist', 'evec', 'beam_vector', 'source_distance', 'active_beam', '__enter__', '__exit__'}


def setup():
    global HI, switch, dec, redirect, ignore, rot, ph, M, POW, LAUE, STL, INSTR, WORK, CTX, numba, limited, MAT
    import contextlib
    import logging
    os.environ['TQDM_DISABLE'] = '1'
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    logging.disable(logging.CRITICAL)
    import numba
    import numba.np.ufunc.parallel as nup
    import contextlib
    nup._backend_init_process_lock = contextlib.nullcontext()      # a lock between processes, not known to the scheduler
    from hexrd.core.instrument import detector, planar_detector, cylindrical_detector, hedm_instrument
    from hexrd.core.utils import decorators as dec
    from hexrd.core.utils.logger import redirect_stdout_to_logger as redirect
    from hexrd.core.utils.warnings import ignore_warnings as ignore
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    from hexrd.hed.xrdutil import phutil as ph
    from hexrd.core.material import Material as M
    from hexrd.core.fitting.calibration import powder as cp, laue as cl, structureless as cs, instrument as ci
    from hexrd.powder.fitting.calibration import powder as pp, structureless as ps, instrument as pi
    from hexrd.laue.fitting.calibration import laue as ll
    from hexrd.laue import simulation as sim
    global SIM
    SIM = sim.simulate_laue_pattern_on_panel
    HI, switch = hedm_instrument.HEDMInstrument, hedm_instrument.switch_xray_source
    POW, LAUE, STL, INSTR = [cp.PowderCalibrator, pp.PowderCalibrator], [cl.LaueCalibrator, ll.LaueCalibrator], [cs.StructurelessCalibrator, ps.StructurelessCalibrator], [ci.InstrumentCalibrator, pi.InstrumentCalibrator]
    WORK = {os.path.realpath(m.__file__) for m in (detector, planar_detector, cylindrical_detector, xfcapi, sim)}
    CTX = os.path.realpath(contextlib.__file__)
    core.watch(sorted(WORK) + [dec.__file__])
    MAT = M()
    # compile what the calibrators use
    r = np.random.default_rng(1)
    ins, name = make_instrument(r, 2, 1, 'planar')
    for w in works(r, ins, name):
        try:
            w(None)
        except Exception:
            pass


def make_instrument(r, n_beams, n_panels, kind):
    names = ['IMAGE-PLATE-2', 'ge1'][:n_panels]
    panels = {n: I.panel_config(r, 24, 30, center=(25. * k, 3.), dist=60., size=.5, tilt=.2, kind=kind if k == 0 else 'planar', radius=70.) for k, n in enumerate(names)}
    beams = {n: {'energy': float(r.uniform(8, 30)), 'vector': {'azimuth': float(r.uniform(80, 100)), 'polar_angle': float(r.uniform(80, 100))}, 'source_distance': float(r.uniform(15, 30))}
             for n in ['XRS1', 'XRS2', 'a'][:n_beams]}
    ins = HI(I.instrument_config(panels, beams=beams), max_workers=1)
    name = list(ins.beam_dict)
    return ins, name


def pinhole(r, ins, kind):
    if kind == 'none':
        return None
    cls = {'jhe': lambda p: ph.JHEPinholeDistortion(p, .4, .2), 'layer': lambda p: ph.LayerDistortion(p, 'sample', .01, .03, .4, .2), 'rygg': lambda p: ph.RyggPinholeDistortion(p, 100., .4, .2, 6)}[kind]
    return {k: cls(p) for k, p in ins.detectors.items()}


def picks_xy(r, p, n):
    return np.c_[r.uniform(-.4, .4, n) * p.col_dim, r.uniform(-.4, .4, n) * p.row_dim]


def works(r, ins, names):
    """pieces of work; each takes the beam to work under"""
    img = {k: r.random(p.shape) for k, p in ins.detectors.items()}
    dist = pinhole(r, ins, r.choice(['none', 'jhe', 'layer', 'rygg']))

    def powder(cls, what, bad=None):
        def go(src):
            m = copy.deepcopy(MAT)
            pk = {k: {'1 1 1': picks_xy(np.random.default_rng(5), p, 3).tolist(), '2 0 0': picks_xy(np.random.default_rng(6), p, 2).tolist()} for k, p in ins.detectors.items()}
            c = cls(ins, m, img, calibration_picks=pk, tth_distortion=dist, xray_source=src, **({'tth_tol': .25} if what == 'autopick_points' else {}))
            if bad == 'key':
                c.data_dict.popitem()
            elif bad == 'shape':
                k = list(c.data_dict)[-1]
                c.data_dict[k] = [np.zeros((2, 1))]
            elif bad == 'images':
                img2 = dict(img)
                img2[list(img)[-1]] = np.zeros((3,))
                c.img_dict = img2
            return getattr(c, what)()
        go.pure, go.name = bad is None, f'{cls.__module__.split(".")[1]} powder {what} {bad}'
        return go

    def laue(cls, what, bad=None):
        def go(src):
            m = copy.deepcopy(MAT)
            gp = np.r_[.3, .2, .1, 0., 0., 0., 1., 1., 1., 0., 0., 0.]
            c = cls(ins, m, gp, min_energy=5, max_energy=60, tth_distortion=dist, xray_source=src)
            h = np.hstack(m.planeData.getSymHKLs()).T
            hk = {}
            for k, p in ins.detectors.items():
                got = SIM(p, [h.T, m.planeData.latVecOps['B']], minEnergy=5, maxEnergy=60, grain_params=[gp], beam_vec=ins.beam_dict.get(src or ins.active_beam_name, ins.active_beam)['vector'])
                hk[k] = got[1][0][:, ~np.isnan(got[0][0][:, 0])].T.astype(int)[:4]
            c.data_dict = {'hkls': hk, 'pick_xys': {k: picks_xy(np.random.default_rng(5), p, len(hk[k])) for k, p in ins.detectors.items()}}
            if bad == 'key':
                c.data_dict['hkls'].popitem()
            elif bad == 'short':
                k = list(ins.detectors)[-1]
                c.data_dict['pick_xys'][k] = np.zeros((len(hk[k]) + 1, 2))
            if what == 'autopick_points':
                return c.autopick_points(img, tth_tol=2., eta_tol=2., use_blob_detection=False, fit_peaks=False)
            return getattr(c, what)()
        go.pure, go.name = bad is None, f'{cls.__module__.split(".")[1]} laue {what} {bad}'
        return go

    def structureless(cls, what, bad=None):
        def go(src):
            s2 = src or ins.active_beam_name
            both = dict.fromkeys([s2] + list(names))
            data = {s: [{k: picks_xy(np.random.default_rng(7 + i), p, 3) for k, p in ins.detectors.items()} for i in range(2)] for s in both}
            c = cls(ins, data, tth_distortion=dist)
            if bad == 'key':
                data[s2][-1]['no such detector'] = np.zeros((1, 2))
            elif bad == 'source':
                data['no such beam'] = data[s2]
            return getattr(c, what)
        go.pure, go.name = bad is None and what != 'residual', f'{cls.__module__.split(".")[1]} structureless {what} {bad}'
        return go

    def fit(k):
        def go(src):
            pk = {n: {'1 1 1': picks_xy(np.random.default_rng(5), p, 3).tolist()} for n, p in ins.detectors.items()}
            cal = INSTR[k](*[POW[k](ins, copy.deepcopy(MAT), img, calibration_picks=pk, xray_source=s) for s in names])
            return cal.residual()
        go.pure, go.name = False, f'fit {k}'
        return go

    def maps(bad):
        def go(src):
            ps = list(ins.detectors.values())
            tth, eta = np.meshgrid(np.linspace(.2, .6, 3), np.linspace(-1, 1, 4))
            with switch(ins, src):
                return ph.calc_tth_rygg_pinhole(ps if bad != 'panel' else ps + [NoPanel()], 100., tth, eta, .4, .2, 6)
        go.pure, go.name = bad is None, f'pinhole map {bad}'
        return go

    out = []
    for k in (0, 1):
        out += [powder(POW[k], 'residual'), powder(POW[k], 'model'), powder(POW[k], 'residual', 'key'), powder(POW[k], 'model', 'shape'), powder(POW[k], 'autopick_points'), powder(POW[k], 'autopick_points', 'images')]
        out += [laue(LAUE[k], 'model'), laue(LAUE[k], 'residual'), laue(LAUE[k], 'model', 'key'), laue(LAUE[k], 'residual', 'short'), laue(LAUE[k], 'autopick_points')]
        out += [structureless(STL[k], w, b) for w in ('meas_angles', 'tth_correction', 'residual') for b in (None, 'key', 'source')]
        out += [fit(k)]
    return out + [maps(None), maps('panel')]


def flat(v):
    if isinstance(v, dict):
        return [y for k in v for y in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [np.zeros(0) if v is None else np.asarray(v)]


def equal(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(C.same(x, y) if x.dtype.kind in 'fiub' else repr(x) == repr(y) for x, y in zip(a, b))


class NoPanel:
    """a panel that cannot convert angles"""
    evec = None

    def angles_to_cart(self, *a, **k):
        raise Boom('no conversion')


def settings(ins):
    return {'active beam': ins.active_beam_name, 'beam vector': np.array(ins.beam_vector), 'energy': ins.beam_energy, 'distance': ins.source_distance,
            'panels': {k: (np.array(p.bvec), p.xrs_dist, np.array(p.evec)) for k, p in ins.detectors.items()},
            'stdout': id(sys.stdout), 'stderr': id(sys.stderr), 'warning filters': list(warnings.filters), 'showwarning': warnings.showwarning, 'numba threads': numba.get_num_threads(), 'beams': list(ins.beam_dict)}


def close(a, b):
    """a calibrator recomputes the beam vectors from their angles"""
    return np.allclose(a, b, rtol=1e-9, atol=1e-9)


def differ(a, b):
    for k in a:
        if k == 'panels':
            for p in a[k]:
                for n, x, y in zip(('beam vector', 'source distance', 'eta vector'), a[k][p], b[k][p]):
                    if not close(x, y):
                        return f'{n} of panel {p}: {x} became {y}'
        elif k in ('beam vector', 'energy', 'distance') and not close(a[k], b[k]):
            return f'{k}: {a[k]} became {b[k]}'
        elif k not in ('beam vector', 'energy', 'distance') and a[k] != b[k]:
            return f'{k}: {a[k]!r} became {b[k]!r}'


def in_work(t, code):
    """an instruction of the working code, outside the machinery that changes settings"""
    if code.co_filename not in WORK and os.path.realpath(code.co_filename) not in WORK:
        return False
    f = sys._getframe(2)
    while f is not None and f.f_code is not code:
        f = f.f_back
    while f is not None:
        c = f.f_code
        if c.co_name in MACHINERY or c.co_filename == CTX:
            return False
        f = f.f_back
    return True


def guarded(ctx, ch, fn, inject, sim=True):
    """(value, exception) of fn, maybe with an exception injected"""
    fail = None

    def body():
        nonlocal fail
        if inject:
            kind = ch.pick([core.InjectedMemoryError, Injected, KeyboardInterrupt])
            fail = core.FailAfter(ch.below(ch.pick([20, 200, 2000])) + 1, in_work, lambda: kind('injected'))
            core.SIM.inject = fail
        try:
            return fn(), None
        except (Exception, Injected, KeyboardInterrupt) as e:
            return None, e
        finally:
            if inject:
                core.SIM.inject = None
    if sim or inject:
        v, e = ctx.sim(body, mode='none')
    else:
        v, e = body()
    if fail is not None and fail.fired:
        ctx.fault('exception')
    return v, e, bool(fail is not None and fail.fired)


def nested(ctx, ch, ins, names, depth, leaf, say):
    """beam switches inside each other; fails at any level, before or after the inner ones"""
    src = ch.pick(names + [None, None, 'no such beam'], 'w', [3] * len(names) + [1, 1, 1])
    here = settings(ins)
    when = ch.pick(['never', 'before', 'after'], 'w', [4, 1, 1])
    manual = ch.chance(0.3)
    catch = ch.chance(0.5)
    say.append((src, when, manual, catch))
    try:
        with switch(ins, src):
            want = src or here['active beam']
            ctx.require(ins.active_beam_name == want and all(np.array_equal(p.bvec, ins.beam_dict[want]['vector']) and p.xrs_dist == ins.beam_dict[want]['distance'] for p in ins.detectors.values()), 'not-under-setting', f'work asked for beam {want}, active is {ins.active_beam_name}')
            if manual and src is not None:
                ins.active_beam_name = ch.pick(names)
            if when == 'before':
                raise Boom('before')
            if depth:
                nested(ctx, ch, ins, names, depth - 1, leaf, say)
            else:
                leaf()
            if when == 'after':
                raise Boom('after')
    except (Boom, ValueError) as e:
        d = differ(here, settings(ins))
        ctx.require(d is None, 'not-restored', lambda: f'nested switch to {src}: {d}')
        if not catch:
            raise
        ctx.probe('caught inside')
    else:
        ctx.require(src != 'no such beam' and when == 'never', 'swallowed', f'switch to {src} with an exception {when} the work did not raise')
    d = differ(here, settings(ins))
    ctx.require(d is None, 'not-restored', lambda: f'nested switch to {src}: {d}')


def under_limit(ctx, ch, k, what, depth=0):
    """numba thread limits, nested, failing, in one thread"""
    start = numba.get_num_threads()
    cap = ch.pick([1, 2, 3, 100])
    act = ch.pick(['ok', 'raise', 'inner', 'change', 'abandon'], 'w', [2, 2, 3, 1, 1])
    token = object()

    @dec.limit_numba_threads(cap)
    def f(a, b=0):
        ctx.require(numba.get_num_threads() == min(start, cap), 'not-under-setting', lambda: f'thread {k}: {numba.get_num_threads()} threads under a limit of {cap} with {start} before')
        if act == 'raise':
            raise Boom(k)
        if act == 'inner' and depth < 3:
            under_limit(ctx, ch, k, what, depth + 1)
        if act == 'change':
            numba.set_num_threads(1)
        if act == 'abandon':
            sys.exit(3)
        return a, b, token
    try:
        v = f(1, b=2)
        ctx.require(act not in ('raise', 'abandon') and v == (1, 2, token), 'swallowed', f'thread {k}: {act} returned {v}')
    except (Boom, SystemExit):
        ctx.require(act in ('raise', 'abandon'), 'unexpected', act)
    ctx.require(numba.get_num_threads() == start, 'not-restored', lambda: f'thread {k}: numba threads were {start}, are {numba.get_num_threads()} after a limit of {cap} ({act})')


def run(ch, ctx):
    r = np.random.default_rng(ch.bits())
    ins, names = make_instrument(r, ch.pick([1, 2, 3], 'w', [1, 3, 2]), ch.pick([1, 2]), ch.pick(['planar', 'cylindrical'], 'w', [3, 1]))
    W = works(r, ins, names)
    ins.active_beam_name = ch.pick(names)
    top = numba.config.NUMBA_NUM_THREADS
    numba.set_num_threads(ch.between(1, top))
    out0, filt0 = sys.stdout, warnings.filters[:]
    try:
        for step in range(ch.between(3, 10)):
            if ch.chance(0.3):
                ins.active_beam_name = ch.pick(names)
            before = settings(ins)
            err = np.geterr()
            ctx.evals += 1
            kind = ch.pick(['work', 'nested', 'limit', 'cif', 'stdout', 'warnings', 'generator'], 'w', [8, 4, 2, 1, 1, 2, 1])
            injected = False
            if kind == 'work':
                k = ch.below(len(W))
                src = ch.pick(names + [None, 'no such beam'], 'w', [3] * len(names) + [1, 1])
                inject = ch.chance(0.5)
                v, e, injected = guarded(ctx, ch, lambda: W[k](src), inject, 'pick' in W[k].name)
                ctx.say('work', W[k].name, src, 'fails' if e is not None else 'ok', type(e).__name__ if e is not None and not isinstance(e, (IndexError, KeyError, ValueError, RuntimeError, AttributeError, TypeError)) else '', injected)
                ctx.probe('injected' if injected else 'failed' if e is not None else 'worked')
                if e is not None and inject and not injected and isinstance(e, (Injected, KeyboardInterrupt, core.InjectedMemoryError)):
                    ctx.fail('phantom', repr(e))
                if e is None and not injected and W[k].pure and src != 'no such beam':
                    # the same work on an instrument that only has that setting
                    d = differ(before, settings(ins))
                    ctx.require(d is None, 'not-restored', lambda: f'{W[k].name} under {src}: {d}')
                    if src is not None:
                        ins.active_beam_name = src
                    try:
                        v2, e2, _ = guarded(ctx, ch, lambda: W[k](None), False)
                    finally:
                        ins.active_beam_name = before['active beam']
                    if e2 is not None:
                        raise e2
                    ctx.require(equal(v, v2), 'not-under-setting', lambda: f'{W[k].name} under beam {src} differs from the same work with that beam active')
                    ctx.nontrivial += 1
            elif kind == 'nested':
                say = []
                k = ch.below(len(W))
                leaf = (lambda: None) if ch.chance(0.6) else lambda: guarded(ctx, ch, lambda: W[k](ch.pick(names)), False, 'pick' in W[k].name)
                try:
                    nested(ctx, ch, ins, names, ch.between(0, 3), leaf, say)
                    e = None
                except (Boom, ValueError) as x:
                    e = x
                ctx.say('nested', say, type(e).__name__)
                ctx.nontrivial += len(say) > 1
            elif kind == 'limit':
                n = ch.pick([0, 1, 2, 3])
                ctx.say('limit', n)
                if n == 0:
                    under_limit(ctx, ch, 0, W)
                else:
                    def main():
                        T = C.Threads()
                        for k in range(n):
                            T.go(lambda k=k: under_limit(ctx, ch, k, W))
                        T.join()
                    ctx.sim(main)
            elif kind == 'cif':
                m = copy.deepcopy(MAT)
                bad = ch.pick(['ok', 'no-directory', 'block', 'print'])
                fn = os.path.join(ctx.tmp, 'x.cif') if bad != 'no-directory' else os.path.join(ctx.tmp, 'no', 'x.cif')
                if bad == 'block':
                    m.to_cif_block = lambda: BadBlock()
                elif bad == 'print':
                    m.to_cif_block = lambda b=m.to_cif_block(): FailingBlock(b)
                try:
                    m.write_cif(fn)
                    e = None
                except Exception as x:
                    e = x
                ctx.require((e is None) or bad != 'ok', 'cif', repr(e))
                ctx.say('cif', bad, e is not None)
            elif kind == 'stdout':
                import logging
                depth, stop = ch.between(1, 3), ch.pick(['ok', 'raise', 'replace'])

                def deep(n):
                    b4 = sys.stdout
                    try:
                        with redirect(logging.getLogger('x'), ch.pick([logging.DEBUG, logging.INFO])):
                            ctx.require(sys.stdout is not b4, 'not-under-setting', 'standard output is not redirected')
                            print('hello')
                            if n > 1:
                                deep(n - 1)
                            if stop == 'replace':
                                sys.stdout = io.StringIO()
                            if stop == 'raise':
                                raise Boom('stdout')
                        ctx.require(stop != 'raise', 'swallowed', 'an exception under redirected output did not reach the caller')
                    finally:
                        ctx.require(sys.stdout is b4, 'not-restored', f'standard output at depth {n}')
                try:
                    deep(depth)
                except Boom:
                    ctx.require(stop == 'raise', 'unexpected', stop)
                ctx.say('stdout', depth, stop)
            elif kind == 'warnings':
                what = ch.pick(['gimbal', 'bad', 'error', 'nested', 'raise'])
                e = None
                try:
                    if what in ('gimbal', 'bad', 'error'):
                        R = rot.RotMatEuler(np.zeros(3), ch.pick(['xyz', 'zxz']), extrinsic=ch.chance(.5))
                        if what == 'error':
                            with warnings.catch_warnings():
                                warnings.simplefilter('error')
                                b4 = list(warnings.filters)
                                R.rmat = np.eye(3)
                                ctx.require(list(warnings.filters) == b4, 'not-restored', 'warning filters set by the caller')
                        elif what == 'gimbal':
                            R.rmat = np.eye(3)
                            rot.angles_from_rmat_xyz(np.eye(3))
                            rot.angles_from_rmat_zxz(np.eye(3))
                        else:
                            ch.pick([rot.angles_from_rmat_xyz, rot.angles_from_rmat_zxz])(np.full((3, 3), ch.pick([np.nan, 0., 7.])))
                    else:
                        with ignore(ch.pick([None, UserWarning, RuntimeWarning])):
                            if what == 'nested':
                                with ignore(UserWarning):
                                    warnings.simplefilter('error')
                            raise Boom('w')
                except Exception as x:
                    e = x
                ctx.require(what not in ('nested', 'raise') or isinstance(e, Boom), 'swallowed', what)
                ctx.say('warnings', what, type(e).__name__)
            else:
                src = ch.pick(names)
                stop = ch.pick(['close', 'drop', 'throw', 'exhaust'])

                def gen():
                    with switch(ins, src):
                        for i in range(3):
                            yield ins.active_beam_name
                g = gen()
                for _ in range(ch.between(1, 3)):
                    ctx.require(next(g) == src, 'not-under-setting', 'generator')
                if stop == 'close':
                    g.close()
                elif stop == 'throw':
                    try:
                        g.throw(Boom('g'))
                        ctx.fail('swallowed', 'generator')
                    except Boom:
                        pass
                elif stop == 'exhaust':
                    list(g)
                else:
                    del g
                    gc.collect()
                ctx.say('generator', src, stop)
            after = settings(ins)
            d = differ(before, after)
            ctx.require(d is None, 'not-restored', lambda: f'after {kind}: {d}')
            ctx.require(injected or np.geterr() == err, 'not-restored', 'numpy error state')
    finally:
        sys.stdout = out0
        warnings.filters[:] = filt0
        numba.set_num_threads(top)


class BadBlock:
    pass


class FailingBlock:
    """a block of a CIF file whose text cannot be produced"""

    def __init__(self, b):
        self.b = b

    def __getattr__(self, k):
        if k in ('b', '__deepcopy__'):
            raise AttributeError(k)
        if 'rint' in k or k == 'WriteOut' or k.startswith('set'):
            raise Boom('cannot print')
        return getattr(self.b, k)
