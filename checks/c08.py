"""C08 memoized geometry, symmetry and generic functions equal their uncached values."""
import copy
import inspect

import numpy as np

from . import common as C
from sim import core

TECHNIQUE = 'seeded interleavings of calling threads over colliding keys, evictions, parameter changes and failing computations against uncached evaluation'
QUICK, THOROUGH = 1500, 80000
RULE = ('Each run makes 1-2 memoized functions of cache size 1-4 and 1-3 small detectors (planar or cylindrical, with or without distortion); 1-5 simulated threads make 4-14 calls each with arguments that '
        'share bytes, values or names but differ in dtype, shape, nesting or keyword, change panel parameters in between, try to modify what they got, resize the caches, and some computations raise.')
REAL = ['hexrd.core.utils.decorators.memoize', 'PlanarDetector/CylindricalDetector pixel_angles, gradients, lorentz and polarization factors, distortion classes', 'symmetry.GenerateSGSym', 'panel_buffer']
STUB = ['thread scheduler and locks', 'the generic memoized functions (harness functions that describe their arguments)']
ASSUME = ['arguments that are equal as Python values (1, 1.0, True; lists and tuples) may share a cache entry']


def setup():
    global memoize, PD, CD, symmetry, SGREF, crystallography, distortion, panel_buffer
    from hexrd.core.utils import decorators
    from hexrd.core.utils.decorators import memoize
    from hexrd.core.instrument.planar_detector import PlanarDetector as PD
    from hexrd.core.instrument.cylindrical_detector import CylindricalDetector as CD
    from hexrd.core.instrument import planar_detector, cylindrical_detector, detector
    from hexrd.core.material import symmetry, crystallography
    from hexrd.core import distortion
    from hexrd.core.utils import panel_buffer
    core.watch([decorators.__file__, panel_buffer.__file__])
    SGREF = {}
    raw = inspect.unwrap(symmetry.GenerateSGSym)
    for k in ((1, 0), (2, 0), (14, 0), (62, 0), (141, 0), (141, 1), (166, 0), (194, 0), (221, 0), (227, 0), (227, 1)):
        SGREF[k] = copy.deepcopy(raw(*k))
    # compile the numba kernels once
    for p in (PD(rows=4, cols=5, pixel_size=(1., 1.)), CD(rows=4, cols=5, pixel_size=(1., 1.), tvec=[0, 0, -50.])):
        for d in (None, 'GE_41RT', 'Dexela_2923'):
            p.distortion = None if d is None else distortion.get_mapping(d, DP[d])
            oracle(p, np.zeros(3))
            p.pixel_angles()


DP = {'GE_41RT': [1e-3, 2e-3, -3e-3, 2., 2., 2.], 'Dexela_2923': [0.1, 0.2, 0.3, -0.1, 0.0, 0.3, 0.2, 0.1]}


def enc(x):
    """exact description of an argument"""
    if isinstance(x, np.ndarray):
        return ('A', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return ('D', tuple(sorted((k, enc(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ('S', tuple(enc(v) for v in x))
    return x


def value_of(args, kw, form):
    """the uncached function: depends on everything in its arguments"""
    import hashlib
    h = hashlib.sha256(repr((enc(args), enc(kw))).encode()).digest()
    a = np.frombuffer(h, np.uint8).astype(float)
    if form == 'array':
        return a
    if form == 'tuple':
        return a[:8].copy(), a[8:].copy()
    if form == 'nested':
        return [a[:4].copy(), (a[4:8].copy(), 7)], True
    if form == 'none':
        return None
    return h.hex()


def leaves(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [b for a in x for b in leaves(a)]
    return []


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and C.same(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


def arg_pool(ch):
    z = [np.zeros(2), np.zeros(2, np.int64), np.zeros((1, 2)), np.zeros((2, 1)), np.zeros(4, np.float32), np.zeros(1), np.zeros(()), np.zeros(4, '>f4'), np.zeros(16, np.uint8)]
    o = [np.arange(6).reshape(2, 3), np.arange(6).reshape(3, 2), np.arange(6).reshape(2, 3).T, np.asfortranarray(np.arange(6).reshape(2, 3)), np.arange(6)[::2], np.array([0, 2, 4]),
         np.arange(6, dtype=float), np.arange(6).astype(np.int32)]
    s = [0, 5, 'a', 'b', None, 'x', 2.5, [1, 2], [[1], 2], [1, [2]], {'a': 1}, {'a': [1]}, {'b': 1}, {}, [], [np.zeros(2), 3], [np.zeros(2, np.int64), 3], {'a': np.zeros(1)}, b'a', -1, -2, 5 + 2j]
    f = [0.1, float(np.nextafter(0.1, 1)), 0.1 + 1e-9, 1e16, 1e16 + 2, 10 ** 20, 10 ** 20 + 1, 1e-300, 2e-300, [0.1, 1.], [float(np.nextafter(0.1, 1)), 1.], np.array([0.1]), np.array([np.nextafter(0.1, 1)]), 'a ', 'A',
         np.arange(3000.), np.r_[np.arange(2999.), 0], [np.arange(3000.)], [np.r_[np.arange(1500.), 0, np.arange(1501., 3000.)]], float('inf'), -float('inf'), True, False, range(3), np.float32(0.1), frozenset({1}), frozenset({2})]
    twins = [f[:3], f[3:5], f[5:7], f[7:9], f[9:11], f[11:13], [0.1, np.array([0.1]), [0.1]], f[13:15] + ['a'], f[15:17], f[17:19], f[19:21], f[-2:], [1e-13, -1e-13, 0.], [[1, None], [None, 1], [1]], [(1, 'a'), (1, 'b')],
             [[0] * 9, [0] * 8 + [1]], [{'a': 0.1}, {'a': f[1]}], [[np.arange(3000.), 1.], [np.arange(3000.), f[1] + 0.9]]]
    return [z, o, s, f, z + o + s + f, ch.pick(twins), ch.pick(twins)][ch.below(7)]


def gen_call(ch, pool):
    args = [pool[ch.below(len(pool))] for _ in range(ch.below(3))]
    kw = {}
    form = ch.below(6)
    if form == 0:
        kw['a'] = 1
    elif form == 1:
        args.append(('a', 1))
    elif form == 2:
        kw = {'a': 1, 'b': pool[ch.below(len(pool))]}
    elif form == 3:
        args.append([('a', 1)])
    elif form == 4:
        args.append({'a': 1})
    return args, kw


def oracle(p, origin):
    """angles of every pixel, without any cache"""
    pi, pj = p.pixel_coords
    xy = np.ascontiguousarray(np.vstack([pj.flatten(), pi.flatten()]).T)
    ang, _ = p.cart_to_angles(xy, tvec_c=origin, apply_distortion=True)
    return ang[:, 0].reshape(p.shape), ang[:, 1].reshape(p.shape)


def grad_tth(t):
    return np.sqrt(sum(g ** 2 for g in np.gradient(t)))


def grad_eta(e):
    out = 0
    for ax in (1, 0):
        g = np.gradient(e, axis=ax)
        out = out + np.min(np.abs(np.stack([g - np.pi, g, g + np.pi])), axis=0) ** 2
    return np.sqrt(out)


def make_panel(ch):
    r = np.random.default_rng(ch.bits())
    cyl = ch.chance(0.35)
    rows, cols = ch.between(3, 7), ch.between(3, 7)
    kw = dict(rows=rows, cols=cols, pixel_size=(1., float(ch.pick([1., 0.5]))), tilt=r.uniform(-.2, .2, 3) * ch.below(2), tvec=[float(r.integers(-3, 4)), 0.5, -60. if cyl else -200.],
              bvec=ch.pick([[0, 0, -1.], [0, 0.6, -0.8]]), evec=[1., 0, 0])
    d = ch.pick([None, 'GE_41RT', 'Dexela_2923'])
    if d:
        kw['distortion'] = distortion.get_mapping(d, np.array(DP[d]))
    return CD(radius=float(ch.pick([49.51, 60.])), **kw) if cyl else PD(**kw)


def change(p, r):
    """change one parameter of a panel in place"""
    k = int(r.integers(7))
    if k == 0:
        p.tilt = r.uniform(-.3, .3, 3)
    elif k == 1:
        p.tvec = np.array([float(r.integers(-3, 4)), float(r.integers(-3, 4)), p.tvec[2] - 1])
    elif k == 2:
        p.bvec = np.array([[0, 0, -1.], [0, 0.6, -0.8], [0.6, 0, -0.8]][int(r.integers(3))])
    elif k == 3:
        p.rows, p.cols = (p.cols, p.rows) if p.rows != p.cols else (p.rows, p.cols + 1)
    elif k == 4 and p.distortion is not None:
        p.distortion.params = np.asarray(p.distortion.params) * float(r.uniform(0.5, 2))
    elif k == 5:
        n = ['GE_41RT', 'Dexela_2923'][int(r.integers(2))]
        p.distortion = distortion.get_mapping(n, np.array(DP[n]) * float(r.integers(1, 3)))
    elif k == 6:
        p.pixel_size_row = float(p.pixel_size_row * 1.25)
    return k


def close(a, b):
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-10, atol=1e-11, equal_nan=True))


def run(ch, ctx):
    pool = arg_pool(ch)
    funcs = []
    for i in range(ch.between(1, 2)):
        form = ch.pick(['array', 'tuple', 'nested', 'scalar', 'none'], 'w', [4, 3, 1, 2, 1])
        size = ch.between(1, 4)
        bad = ch.chance(0.3, 'f')
        when = ch.below(8, 'f')
        st = {'calls': 0}

        def raw(*a, _form=form, _bad=bad, _when=when, _st=st, **k):
            _st['calls'] += 1
            n = _st['calls']
            C.point('compute')
            if _bad and n % 8 == _when:
                ctx.fault('computation-error')
                raise C.InjectedError('simulated failure of the computation')
            v = value_of(a, k, _form)
            C.point('computed')
            return v
        f = memoize(raw, maxsize=size) if ch.chance(0.7) or size != 2 else memoize(raw)
        funcs.append((f, form, size))
        ctx.say('function', i, form, 'size', size, 'fails' if bad else '')
    panels = [make_panel(ch) for _ in range(ch.between(1, 3))]
    for p in panels:
        ctx.say('panel', type(p).__name__, p.shape, type(p.distortion).__name__)
    ncall = ch.between(2, 8)
    calls = [gen_call(ch, pool) for _ in range(ncall)]
    nt = ch.between(1, 5)
    plans = [(ch.bits(), ch.between(4, 14)) for _ in range(nt)]
    resize = ch.chance(0.3)
    sizes = {id(f): s for f, _, s in funcs}

    def vandal(x):
        """try to change a result in place"""
        for a in leaves(x):
            if a.size == 0:
                continue
            try:
                a[...] = -999
            except ValueError:
                ctx.probe('write-refused')

    def client(t):
        r = np.random.default_rng(plans[t][0])
        own = copy.deepcopy(panels[int(r.integers(len(panels)))])
        for _ in range(plans[t][1]):
            k = r.random()
            if k < 0.55:
                f, form, _ = funcs[int(r.integers(len(funcs)))]
                a, kw = calls[int(r.integers(len(calls)))]
                # equal arguments, other objects
                a2, kw2 = copy.deepcopy(a), copy.deepcopy(kw)
                try:
                    got = f(*a2, **kw2)
                except C.InjectedError:
                    continue
                want = value_of(a, kw, form)
                ctx.evals += 1
                ctx.require(equal(got, want), 'wrong-result', lambda: f'thread {t}: {a} {kw} gave {got!r}, uncached {want!r}')
                if r.random() < 0.5:
                    vandal(got)
                if resize and r.random() < 0.1:
                    n = int(r.integers(1, 5))
                    f.set_cache_maxsize(n)
                    sizes[id(f)] = n
            elif k < 0.62:
                key = list(SGREF)[int(r.integers(len(SGREF)))]
                got = symmetry.GenerateSGSym(*key) if r.random() < 0.5 else symmetry.GenerateSGSym(key[0], setting=key[1])
                ctx.evals += 1
                ctx.require(equal(got, SGREF[key]), 'symmetry', f'GenerateSGSym{key} differs from the uncached result')
                if r.random() < 0.5:
                    vandal(got)
            elif k < 0.65:
                names = ['chess-eiger-stream-v1', 'chess-eiger-stream-v2']
                nm = names[int(r.integers(2))]
                b = BUF(nm)
                ctx.require(C.same(b, BUFREF[nm]), 'panel-buffer', f'panel buffer {nm} differs from its file')
                vandal(b)
            else:
                p = own if r.random() < 0.6 else panels[int(r.integers(len(panels)))]
                if p is own and r.random() < 0.5:
                    ctx.probe('panel-changed-%d' % change(p, r))
                origin = np.zeros(3) if isinstance(p, CD) or r.random() < 0.7 else np.round(r.uniform(-1, 1, 3), 2)
                wt, we = oracle(p, origin)
                q = int(r.integers(5))
                ctx.evals += 1
                if q == 0:
                    got = p.pixel_angles(origin)
                    ok = close(got[0], wt) and close(got[1], we)
                elif q == 1:
                    got = p.pixel_tth_gradient(origin)
                    ok = close(got, grad_tth(wt))
                elif q == 2:
                    got = p.pixel_eta_gradient(origin)
                    ok = close(got, grad_eta(we))
                elif q == 3:
                    got = p.lorentz_factor()
                    wt, we = oracle(p, np.zeros(3))
                    ok = close(got, 1 / (np.cos(wt / 2) * np.sin(wt / 2) ** 2))
                else:
                    wt, we = oracle(p, np.zeros(3))
                    fh = [1.0, 0.5, 0.25][int(r.integers(3))]
                    unp = bool(r.integers(2))
                    got = p.polarization_factor(fh, 1 - fh, unp)
                    c2 = np.cos(wt) ** 2
                    ok = close(got, (1 + c2) / 2 if unp else fh * (np.sin(we) ** 2 + np.cos(we) ** 2 * c2) + (1 - fh) * (np.cos(we) ** 2 + np.sin(we) ** 2 * c2))
                ctx.require(ok, 'geometry', f'thread {t}: query {q} of a {type(p).__name__} {p.shape} differs from the uncached value')
                if r.random() < 0.5:
                    vandal(got)

    def body():
        T = C.Threads()
        for t in range(nt):
            T.go(client, t)
        T.join()
        for f, form, _ in funcs:
            info = f.cache_info()
            ctx.evals += 1
            ctx.require(info['currsize'] <= info['maxsize'], 'too-many-entries', f'{info}')
            if not resize:
                ctx.require(info['maxsize'] == sizes[id(f)], 'maxsize', f'{info}')

    from pathlib import Path
    BUFREF = {n: np.load(Path(panel_buffer.__file__).parent.parent / 'resources' / 'panel_buffers' / f'{n}.npz')['panel_buffer'] for n in ('chess-eiger-stream-v1', 'chess-eiger-stream-v2')}

    def BUF(name):
        p = PD(rows=BUFREF[name].shape[0], cols=BUFREF[name].shape[1], panel_buffer=name)
        return panel_buffer.panel_buffer_as_2d_array(p)
    ctx.sim(body)
