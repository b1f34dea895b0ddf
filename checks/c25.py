"""C25 data-parallel pattern kernels give the same answer for every iteration order."""
import contextlib
import copy
import importlib
import inspect
import os
import warnings

import numpy as np

from sim import prange as P

TECHNIQUE = 'the prange loops of the kernels executed by simulated threads under a seeded scheduler (divisions, orders, interleavings, private copies, merge orders), against the loop run in order, the compiled kernel, and single items'
QUICK, THOROUGH = 4000, 300000
RULE = ('Each run takes one kernel with arguments recorded from real LeBail, Rietveld and orientation-sampling models, reduces and perturbs them (0 to all reflections, ragged lengths, zero and extreme values), and executes its parallel loops on '
        '1-8 simulated threads with seeded chunks, orders and interleavings at every statement; or recomputes a whole model pattern with all its kernels executed that way.')
REAL = ['source of every kernel compiled for parallel execution in xtal.py, peakfunctions.py and sampleRFZ.py', 'the compiled kernels (compared)', 'LeBail, Rietveld and sampleRFZ callers', 'jitted functions the kernels call (compiled)']
STUB = ['numba parallel runtime (simulated: division, threads, private copies, reduction merge)', 'thread scheduler']
ASSUME = ["numba's rules for private names and reductions", 'jitted helper functions run without pre-emption inside', 'sums over reflections agree to rounding; everything else exactly']

REC = {}          # (module, kernel) -> list of argument tuples
KER = {}          # (module, kernel) -> (dispatcher, sequential, parallel or None)
MODELS, MATS = [], []


def kernels(mod):
    for k, v in list(vars(mod).items()):
        if hasattr(v, 'py_func') and v.__module__ == mod.__name__:
            yield k, v


def setup():
    global WPPF, phase, S, xtal, pf, rfz, numba
    warnings.simplefilter('ignore')
    import numba
    import numba.np.ufunc.parallel as nup
    nup._backend_init_process_lock = contextlib.nullcontext()
    from hexrd.powder.wppf import WPPF, phase, xtal, peakfunctions as pf
    rfz = importlib.import_module('hexrd.hedm.sampleOrientations.sampleRFZ')
    homes = [xtal, pf, rfz]
    for mod in homes:
        for k, d in kernels(mod):
            src = inspect.getsource(d.py_func)
            if 'prange' in src or k.startswith(('computespectrum_', 'calc_Iobs_')):
                par = d.targetoptions.get('parallel')
                KER[mod.__name__, k] = (d, P.sequential(d.py_func), P.parallel(d.py_func) if par else None)
    # record what real models pass to them
    patched = []

    def record(mod, name, key):
        d = KER[key][0]

        def rec(*a, **kw):
            a = inspect.signature(d.py_func).bind(*a, **kw).args
            REC.setdefault(key, []).append(tuple(x.copy() if isinstance(x, np.ndarray) else x for x in a))
            return d(*a)
        patched.append((mod, name, getattr(mod, name)))
        setattr(mod, name, rec)

    for mod in (WPPF, phase, rfz):
        for name, v in list(vars(mod).items()):
            key = (getattr(v, '__module__', None), getattr(getattr(v, 'py_func', None), '__name__', None))
            if key in KER:
                record(mod, name, key)
    # compile in several processes at once; this one then loads the results from numba's cache
    jobs = []
    for part in range(6):
        pid = os.fork()
        if pid == 0:
            try:
                build(part)
            finally:
                os._exit(0)
        jobs.append(pid)
    for pid in jobs:
        os.waitpid(pid, 0)
    try:
        for part in range(6):
            build(part)
    finally:
        for mod, name, v in patched:
            setattr(mod, name, v)
    for k in list(REC):
        REC[k] = REC[k][:12]
    for k, (d, s, p) in KER.items():
        for a in REC.get(k, [])[:1]:
            d(*a)
    if len([k for k in REC if KER[k][2]]) < 5:
        raise RuntimeError(f'few parallel kernels are reached: {sorted(REC)}')


def build(part):
    """a part of the models; every kernel gets called with what they pass"""
    from hexrd.core.material.material import Material
    from hexrd.core.valunits import valWUnit
    ni = Material()
    if part < 5:
        r = np.random.default_rng(4)
        tt = np.linspace(5, 40, 97)
        sp = np.c_[tt, 10 + 100 * np.exp(-((tt - 13) / .3) ** 2) + r.random(len(tt))]
        wl = {n: [valWUnit(n, 'length', a, 'angstrom'), w] for n, a, w in [('a', .5, 1.), ('b', .52, .5)]}
        ps = ('pvfcj', 'pvtch', 'pvpink', 'pvheating', 'pvexponential')[part]
        m = WPPF.LeBail(expt_spectrum=sp, phases=[ni], wavelength=wl, bkgmethod={'chebyshev': 2}, peakshape=ps)
        m.computespectrum()
        m.CalcIobs()
        MODELS.append(m)
        m = WPPF.Rietveld(expt_spectrum=sp, phases=[ni], wavelength=wl, bkgmethod={'chebyshev': 2}, peakshape=ps)
        MODELS.append(m)
        return
    two, ani = copy.deepcopy(ni), copy.deepcopy(ni)
    two._set_atomdata(np.array([11, 17]), np.array([[0., 0., 0., 1.], [.5, .5, .5, .9]]), np.array([.01, .02]), ['0', '0'])
    ani._set_atomdata(np.array([28]), np.array([[0., 0., 0., 1.]]), np.array([[.01, .012, .01, .001, 0., 0.]]), ['0'])
    for m in (ni, two, ani):
        MATS.append(phase.Material_Rietveld(material_obj=m))
        factors(MATS[-1])
    for a in (70., 50.):
        rfz.sampleRFZ(32, 'default', a)


def factors(mat, wavelength=.05):
    n = len(mat.hkls)
    tth, f2 = np.linspace(6., 60., n), np.linspace(900., 30., n)
    out = list(mat.CalcXRSF(wavelength, .7))
    out += [x for x in mat.get_sf_hkl_factors() if x is not None]
    out += [mat.calc_absorption(tth, phi, wavelength) for phi in (0., 10.)]
    out += [mat.calc_extinction(wavelength, tth, f2, 1., d) for d in (10., 500.)]
    return np.concatenate([np.ravel(x) for x in out])


def items(name, args):
    """number of reflections, and which arguments have one entry for each"""
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.ndim == 2 and a.shape[1] == 3 and a.shape[0] != 3:
            n = a.shape[0]
            break
    else:
        n = next(len(a) for a in args if isinstance(a, np.ndarray) and a.ndim == 1)
    return n, [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.ndim and a.shape[0] == n and len(a) != 97 and a.shape != (3, 3)] + \
        [i for i, a in enumerate(args) if isinstance(a, (int, np.integer)) and not isinstance(a, bool) and a == n]


def take(args, per, idx):
    out = list(args)
    for i in per:
        out[i] = np.ascontiguousarray(args[i][idx]) if isinstance(args[i], np.ndarray) else len(idx)
    return out


def vary(ch, args, per, kind):
    """perturbed arguments of the same meaning"""
    r = np.random.default_rng(ch.bits())
    out = []
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and i in per and a.ndim == 1:
            a = a * r.uniform(.9, 1.1, a.shape)
            if kind == 'zeros' and len(a):
                a[r.random(len(a)) < .3] = 0.
            elif kind == 'equal':
                a[:] = a[0] if len(a) else 0
        elif isinstance(a, float) and kind != 'plain':
            a = a * float(r.uniform(.5, 1.5))
        out.append(a.copy() if isinstance(a, np.ndarray) else a)
    return out


def same(a, b, tol, scale=None):
    a, b = (a if isinstance(a, tuple) else (a,)), (b if isinstance(b, tuple) else (b,))
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if tol == 0:
            if not np.array_equal(x, y, equal_nan=True):
                return False
        else:
            fin = np.abs(y[np.isfinite(y)])
            if not np.allclose(x, y, rtol=tol, atol=tol * (fin.max() if fin.size else 0), equal_nan=True):
                return False
    return True


def quiet(f, *a):
    with np.errstate(all='ignore'):
        try:
            return f(*a)
        except (ZeroDivisionError, ValueError, IndexError) as e:
            return e


def run(ch, ctx):
    kind = ch.pick(['kernel', 'model', 'sampling'], weights=[8, 2, 2])
    if kind == 'kernel':
        return kernel(ch, ctx)
    if kind == 'model':
        return model(ch, ctx)
    return sampling(ch, ctx)


def runtime(ch):
    P.RT = P.Runtime(ch, ch.pick([1, 2, 3, 4, 8], weights=[1, 4, 3, 2, 2]))
    return P.RT


def kernel(ch, ctx):
    keys = sorted(k for k in REC if k[0] != rfz.__name__)
    key = ch.pick(keys, weights=[3 if KER[k][2] else 1 for k in keys])
    comp, seq, par = KER[key]
    base = ch.pick(REC[key])
    n, per = items(key[1], base)
    how = ch.pick(['all', 'few', 'one', 'none', 'many'], weights=[3, 4, 2, 1, 2])
    r = np.random.default_rng(ch.bits())
    if how == 'all':
        idx = np.arange(n)
    else:
        idx = r.integers(0, n, {'few': ch.between(2, 5), 'one': 1, 'none': 0, 'many': ch.between(n, 3 * n)}[how])
    args = take(base, per, idx)
    m = len(idx)
    args = vary(ch, args, per, ch.pick(['plain', 'scaled', 'zeros', 'equal']))
    spectrum = key[1].startswith('computespectrum_')
    ragged = spectrum and m > 1 and ch.chance(.25)
    if ragged:
        # the kernels use as many reflections as all their tables have
        cand = [i for i in per if ch.chance(.4)] or per[:1]
        names = list(inspect.signature(comp.py_func).parameters)
        cand = [i for i in cand if names[i] in ('tth', 'dsp', 'hkl', 'Iobs')]
        for i in cand:
            args[i] = np.ascontiguousarray(args[i][:ch.between(0, m - 1)])
        ctx.probe('ragged', bool(cand))
    blank = key[1].startswith('calc_Iobs_') and ch.chance(.3)
    if blank:
        # a simulated pattern that is zero somewhere
        i = list(inspect.signature(comp.py_func).parameters).index('spectrum_sim')
        args[i] = args[i].copy()
        args[i][r.random(len(args[i])) < .2, 1] = 0.
        ctx.probe('blank points')
    kept = [a.copy() if isinstance(a, np.ndarray) else a for a in args]

    def untouched(what):
        for a, b in zip(args, kept):
            ctx.evals += 1
            if isinstance(a, np.ndarray) and not np.array_equal(a, b, equal_nan=True):
                ctx.fail('arguments', f'{key[1]} changed an argument ({what})')

    ref = quiet(seq, *args)
    untouched('in order')
    if isinstance(ref, Exception):
        if blank or m == 0 or isinstance(ref, ZeroDivisionError):
            ctx.probe('error in order')
        if not isinstance(ref, ZeroDivisionError):
            ctx.fail('error', f'{key[1]} with {m} reflections: {type(ref).__name__} in plain Python; the compiled kernel would read outside its arrays')
        return
    ctx.probe(f'{key[1]}')
    ctx.probe(f'{how}')
    # the compiled kernel, and the same on other numbers of real threads
    numba.set_num_threads(ch.between(1, min(4, numba.config.NUMBA_NUM_THREADS)))
    got = quiet(comp, *args)
    untouched('compiled')
    ctx.evals += 1
    if isinstance(got, ZeroDivisionError):
        return
    if not same(got, ref, 1e-7):
        ctx.fail('compiled', f'{key[1]} with {m} reflections: the compiled kernel differs from its loop in order')
    # under the simulated parallel runtime
    if par is not None:
        exact = not any(REDS(key))
        for k in range(ch.between(1, 2)):
            rt = runtime(ch)
            res = ctx.sim(lambda: quiet(par, *args), mode=ch.pick(['none', 'rare', 'medium', 'dense', 'every'], weights=[1, 2, 3, 3, 2]))
            untouched('in parallel')
            ctx.evals += 1
            ctx.probe(f'{rt.used} threads')
            if rt.chunks > 1:
                ctx.nontrivial += 1
            if isinstance(res, Exception) or not same(res, ref, 0 if exact else 1e-9):
                ctx.fail('parallel', f'{key[1]} with {m} reflections on {rt.used} threads in {rt.chunks} pieces: {"error " + type(res).__name__ if isinstance(res, Exception) else "not the result of the loop in order"}')
    # reflection by reflection
    if not ragged and m:
        parts = [quiet(seq, *take(args, per, np.r_[i])) for i in range(m)]
        if any(isinstance(p, Exception) for p in parts):
            return
        ctx.evals += 1
        if spectrum:
            tot = np.sum(parts, axis=0)
            if not same(tot, ref, 1e-9):
                ctx.fail('split', f'{key[1]}: the pattern of {m} reflections is not the sum of theirs')
        else:
            tot = tuple(np.concatenate([p[j] for p in parts]) for j in range(len(ref))) if isinstance(ref, tuple) else np.concatenate(parts)
            if not same(tot, ref, 1e-12):
                ctx.fail('split', f'{key[1]}: results for {m} reflections together and one by one differ')


def REDS(key):
    return [v for (f, n), v in P._REDS.items() if f == f'<parallel {key[0]}.{key[1]}>' and v]


@contextlib.contextmanager
def parallel_everywhere():
    old = []
    for mod in (WPPF, phase, rfz):
        for name, v in list(vars(mod).items()):
            key = (getattr(v, '__module__', None), getattr(getattr(v, 'py_func', None), '__name__', None))
            if key in KER and KER[key][2] is not None:
                old.append((mod, name, v))
                setattr(mod, name, KER[key][2])
    try:
        yield
    finally:
        for mod, name, v in old:
            setattr(mod, name, v)


def model(ch, ctx):
    m, mat = ch.pick(MODELS), ch.pick(MATS)
    r = np.random.default_rng(ch.bits())
    what = ch.pick(['pattern', 'intensities', 'factors'], weights=[3, 2, 2])
    if what == 'factors':
        m = mat
    elif not hasattr(m, 'CalcIobs'):
        what = 'pattern'
    if m is not mat and ch.chance(.7):
        m.zero_error = float(r.uniform(-.05, .05))
        m.trns = float(r.uniform(-.02, .02))
    name = f'{type(m).__name__} {getattr(m, "peakshape", "")} {what}'

    def work():
        with np.errstate(all='ignore'):
            if what == 'pattern':
                m.computespectrum()
                return np.array(m.spectrum_sim.data_array)
            if what == 'intensities':
                m.computespectrum()
                m.CalcIobs()
                return np.concatenate([np.ravel(x) for d in m.Iobs.values() for x in d.values()])
            return factors(mat, .05)
    ref = work()
    rt = runtime(ch)
    with parallel_everywhere():
        got = ctx.sim(work, mode=ch.pick(['rare', 'medium', 'dense']))
    ctx.evals += 1
    ctx.probe(name)
    ctx.probe('loops', rt.loops)
    if rt.chunks > 1:
        ctx.nontrivial += 1
    if not same(got, ref, 1e-8):
        ctx.fail('model', f'{name} on {rt.used} threads: the result differs from the compiled one')


def sampling(ch, ctx):
    key = next(k for k in KER if k[0] == rfz.__name__ and KER[k][2])
    pg, how = ch.between(1, 32), ch.pick(['default', 'special'])
    spacing = ch.pick([125., 70., 50., 40.])
    with np.errstate(all='ignore'):
        ref = rfz.sampleRFZ(pg, how, spacing)
    rt = runtime(ch)
    with parallel_everywhere():
        got = ctx.sim(lambda: rfz.sampleRFZ(pg, how, spacing), mode=ch.pick(['rare', 'medium']))
    ctx.evals += 1
    ctx.probe(f'N={int(ref.cubN)}')
    if rt.chunks > 1:
        ctx.nontrivial += 1
    if not same(got.orientations, ref.orientations, 0):
        # the compiled functions may round differently when called from Python
        if not same(got.orientations, ref.orientations, 1e-12):
            ctx.fail('sampling', f'orientations for point group {pg} ({how}, {spacing} degrees) on {rt.used} threads differ from the compiled ones')
