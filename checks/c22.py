"""C22 updating a materials file keeps every material and reports failure."""
import copy
import errno
import os
import shutil

import numpy as np

from . import common as C
from . import instr as I
from sim import core, disk

TECHNIQUE = 'seeded histories of saves and loads with failures at any field, any HDF5 call or any file operation, against a model of the file'
QUICK, THOROUGH = 550, 60000
RULE = ('Each run keeps one or two materials files through 2-9 steps: add, overwrite or rename materials one at a time or several together, under the top group or below a path, by file name or through an open file; '
        'saves fail because of a bad value in any field, any HDF5 call raising, the file failing to open once, or a seeded disk fault (error once or for good, short or interrupted write); materials are loaded one by one and all together after every step.')
REAL = ['Material.dump_material and loading, save_materials_hdf5, load_materials_hdf5, mksupport.Write2H5File', 'h5py/HDF5 on real files']
STUB = ['file-system calls below the scratch directory pass the LD_PRELOAD fault seam', 'failing HDF5 calls raise in wrapped h5py methods']
ASSUME = ['atom positions and thermal factors are kept in single precision by design', 'a material has at least one active reflection', 'what a failing disk leaves of the file is not claimed',
          'HDF5 2.0 itself can crash the process after a write error (counted, not judged) and swallows a momentary error while closing an object, so only errors that persist are judged']
FIELDS = ['k0', 'k0p', 'dk0dt', 'dk0pdt', 'alpha_t', 'dalpha_t_dt', 'v0', 'pressure', 'temperature']


def setup():
    global M, h5py, BASE, mk
    import logging
    logging.disable(logging.CRITICAL)
    import h5py
    from hexrd.core.material import material as M, mksupport as mk
    from hexrd.core.valunits import valWUnit
    core.watch([mk.__file__])
    BASE = []
    for sg, lp, kev, dmin in ((225, None, 65.351, 1.0), (194, (2.95, 4.68), 80.7, 1.2), (229, (2.87,), 40., 1.0), (227, (5.43,), 80.7, 1.3)):
        m = M.Material()
        if sg != 225:
            m.sgnum = sg
            m.latticeParameters = list(lp)
        m.dmin = valWUnit('dmin', 'length', dmin, 'angstrom')
        m.beamEnergy = valWUnit('e', 'energy', kev, 'keV')
        BASE.append(m)
    two = copy.deepcopy(BASE[0])
    two._set_atomdata(np.array([11, 17]), np.array([[0., 0., 0., 1.], [.5, .5, .5, .9]]), np.array([.01, .02]), ['0', '0'])
    BASE.append(two)
    ani = copy.deepcopy(BASE[0])
    ani._set_atomdata(np.array([28]), np.array([[0., 0., 0., 1.]]), np.array([[.01, .01, .01, 0., 0., 0.]]), ['0'])
    BASE.append(ani)


class InjectedError(Exception):
    pass


class OpenFails:
    """the n-th opening of a file for writing fails once"""

    def __init__(self, n, err):
        self.left, self.err, self.fired = n, err, None

    def __enter__(self):
        self.old = old = h5py.File.__init__

        def init(me, name, mode='r', *a, **k):
            if mode != 'r':
                self.left -= 1
                if self.left == 0:
                    self.fired = mode
                    raise OSError(self.err, os.strerror(self.err))
            return old(me, name, mode, *a, **k)
        h5py.File.__init__ = init
        return self

    def __exit__(self, *e):
        h5py.File.__init__ = self.old


class Failing:
    """the n-th HDF5 call of a save raises"""

    def __init__(self, n):
        self.left, self.fired = n, None

    def __enter__(self):
        self.old = []
        for cls, name in ((h5py.Group, 'create_group'), (h5py.Group, 'create_dataset'), (h5py.Dataset, 'write_direct'), (h5py.Group, '__setitem__'), (h5py.Group, '__delitem__'), (h5py.Group, '__contains__')):
            f = cls.__dict__[name]
            self.old.append((cls, name, f))
            setattr(cls, name, self.wrap(f, name))
        return self

    def wrap(self, f, name):
        def call(*a, **k):
            self.left -= 1
            if self.left == 0:
                self.fired = name
                raise InjectedError(f'simulated failing {name}')
            return f(*a, **k)
        return call

    def __exit__(self, *e):
        for cls, name, f in self.old:
            setattr(cls, name, f)


def facts(m):
    d = {'sg': int(m.sgnum), 'setting': int(m.unitcell.sgsetting), 'lattice': np.array([x.value for x in m.latticeParameters]), 'types': np.array(m.unitcell.atom_type, int), 'pos~': np.array(m.unitcell.atom_pos, float),
         'U~': np.array(m.unitcell.U, float), 'charge': [str(x) for x in m.unitcell.chargestates], 'stiffness': np.array(m.unitcell.stiffness, float), 'dmin': np.array(m.dmin.getVal('angstrom')), 'kev': np.array(m.beamEnergy.getVal('keV')),
         'width': np.array(np.nan if m.planeData.tThWidth is None else m.planeData.tThWidth), 'hkls': np.array(sorted(map(tuple, np.asarray(m.planeData.getHKLs()).tolist())))}
    d.update({k: np.array(float(getattr(m, k))) for k in FIELDS})
    return d


def diff(a, b):
    for k in b:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype.kind in 'US' or y.dtype.kind in 'US':
            ok = a[k] == b[k]
        else:
            ok = x.shape == y.shape and np.allclose(x, y, rtol=2e-7 if k.endswith('~') else 1e-12, atol=1e-9 if k.endswith('~') else 1e-13, equal_nan=True)
        if not ok:
            return f'{k}: {a[k]} instead of {b[k]}'


def gen(ch, r, name):
    m = copy.deepcopy(ch.pick(BASE))
    m._name = name
    for k in FIELDS:
        if ch.chance(0.3):
            setattr(m, k, float(r.normal(100, 30)))
    if ch.chance(0.4):
        m.unitcell.stiffness = r.random((6, 6))
    pd = m.planeData
    n = len(pd.exclusions)
    ex = r.random(n) < ch.pick([.5, .9, 0.])
    if ex.all():
        ex[ch.below(n)] = False
    pd.exclusions = ex
    pd.tThWidth = ch.pick([np.radians(.25), None, np.radians(1.7)])
    return m


def run(ch, ctx):
    r = np.random.default_rng(ch.bits())
    files = {os.path.join(ctx.tmp, n): {} for n in ch.pick([['m.h5'], ['m.h5', 'n.hdf5']])}     # {file: {(path, name): facts}}
    mats = {}
    NAMES = ch.pick([['Ni', 'ceo2'], ['Ni', 'a b', 'x1', 'Z'], ['only']])

    def dump(m, f, path, handle):
        if handle:
            with h5py.File(f, 'a') as h:
                return save(m, h, path)
        save(m, f, path)

    def save(m, f, path):
        if isinstance(m, list):
            M.save_materials_hdf5(f, {x.name: x for x in m}, path)
        else:
            m.dump_material(f, path)

    def opened():
        return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)

    def has_group(f):
        with h5py.File(f, 'r') as h:
            return 'grp' in h

    def check(f, sig, why):
        model = files[f]
        if not os.path.exists(f):
            ctx.require(not model, sig, f'{why}: the file is missing')
            return
        for path in {p for p, _ in model} | {None}:
            names = {n for p, n in model if p == path}
            try:
                if ch.chance(0.5):
                    with h5py.File(f, 'r') as h:
                        got = M.load_materials_hdf5(h[path]) if path else None
                        if path is None:
                            if 'grp' in h:
                                got = {n: M.Material(n, h) for n in h if n != 'grp'}
                            else:
                                got = M.load_materials_hdf5(h)
                elif path is None and not has_group(f):
                    got = M.load_materials_hdf5(f)
                else:
                    with h5py.File(f, 'r') as h:
                        have = [n for n in (h[path] if path else h) if n != 'grp']
                    got = {n: M.Material(f'{path}/{n}' if path else n, f) for n in have}
            except Exception as e:
                ctx.fail(sig, f'{why}: loading fails: {e!r}'[:300])
            ctx.require(set(got) == names, sig, f'{why}: the file holds {sorted(got)}, saved were {sorted(names)}')
            for n in names:
                d = diff(facts(got[n]), model[path, n])
                ctx.evals += 1
                ctx.require(not d, sig, f'{why}: {n}: {d}')
        ctx.require(opened() == 0, 'left-open', f'{why}: {opened()} files are open after loading')

    for step in range(ch.between(2, 9)):
        f = ch.pick(list(files))
        path = 'grp/sub' if ch.chance(0.2) else None
        many = ch.chance(0.2)
        chosen = [ch.pick(NAMES) for _ in range(ch.between(1, 3) if many else 1)]
        ms = []
        for n in dict.fromkeys(chosen):
            if n in mats and ch.chance(0.3):
                ctx.probe('saved-again')
                m = mats[n]
                m.k0 = float(r.normal(50, 5))
            else:
                m = gen(ch, r, n)
            mats[n] = m
            ms.append(m)
        handle = ch.chance(0.3)
        what = ch.pick(['plain', 'bad', 'inject', 'disk', 'missing'], 'w', [5, 3, 3, 3, 1])
        if any((path, m.name) in files[f] for m in ms):
            ctx.probe('overwritten')
        ctx.say(what, [m.name for m in ms], 'in', os.path.basename(f), path or '/', 'handle' if handle else 'path')
        obj = ms if many else ms[0]
        before = [facts(m) for m in ms]
        if what == 'plain':
            dump(obj, f, path, handle)
            files[f].update({(path, m.name): facts(m) for m in ms})
        elif what == 'missing':
            if os.path.exists(f):
                try:
                    M.Material('no such', f)
                    ctx.fail('missing', 'a material that is not in the file was loaded')
                except OSError as e:
                    ctx.require(opened() == 0, 'left-open', 'a failed load left the file open')
        elif what == 'bad':
            bad = ms[ch.below(len(ms))]
            k = ch.pick(FIELDS)
            old = getattr(bad, k)
            setattr(bad, k, ch.pick(['hot', object()]))
            ctx.say('  bad', k)
            ctx.fault('bad-value')
            ctx.nontrivial = True
            try:
                dump(obj, f, path, handle)
                ctx.fail('bad-accepted', f'a material with a bad {k} was saved')
            except core.SimViolation:
                raise
            except Exception as e:
                ctx.require(opened() == 0, 'left-open', f'a save that failed ({e!r}) left the file open'[:300])
            setattr(bad, k, old)
            settle(ctx, f, path, ms, bad, files)
        elif what == 'inject' and not handle and ch.chance(0.35, 'f'):
            # the file cannot be opened just then
            keep = os.path.exists(f)
            with OpenFails(ch.between(1, len(ms), 'f'), ch.pick([errno.EIO, errno.EACCES, errno.EMFILE, errno.EAGAIN], 'f')) as fail:
                try:
                    dump(obj, f, path, handle)
                    left = None
                except OSError:
                    left = opened()
            ctx.nontrivial = True
            if fail.fired:
                ctx.fault('open-fails')
                ctx.say('  open failed', fail.fired)
            if left is None:
                files[f].update({(path, m.name): facts(m) for m in ms})
            else:
                ctx.require(fail.fired, 'save-failed', 'a save failed without a fault')
                ctx.require(left == 0, 'left-open', f'a save that could not open the file left it open ({left})')
                if keep or os.path.exists(f):
                    settle(ctx, f, path, ms, None, files)
        elif what == 'inject':
            with Failing(ch.between(1, 60 * len(ms), 'f')) as fail:
                try:
                    dump(obj, f, path, handle)
                    left = None
                except InjectedError:
                    left = opened()
            ctx.nontrivial = True
            if fail.fired:
                ctx.fault('hdf5-call-fails')
                ctx.say('  failed', fail.fired)
                ctx.require(left is not None, 'error-lost', f'a failing {fail.fired} was lost')
                ctx.require(left == 0, 'left-open', f'a save that failed ({fail.fired}) left the file open ({left})')
                settle(ctx, f, path, ms, None, files)
            else:
                files[f].update({(path, m.name): facts(m) for m in ms})
        else:
            keep = os.path.exists(f)
            if keep:
                shutil.copy(f, 'keep')
            o = disk.node(lambda: dump(obj, f, path, handle), cls=disk.MUT)
            ctx.require(o.kind == 'ok', 'save-failed', f'{o}')
            n = o.ops
            back(f, keep)
            kind = ch.pick(['sticky', 'once', 'short', 'eintr'], 'f', [5, 2, 1, 1])
            k = 1 + ch.below(n, 'f') if ch.chance(0.6, 'f') else max(1, n - ch.below(8, 'f'))
            act = {'sticky': disk.STICKY, 'once': disk.FAIL, 'short': disk.SHORT, 'eintr': disk.INTR}[kind]
            o = disk.node(lambda: dump(obj, f, path, handle), [(disk.WRITE if kind in ('short', 'eintr') else disk.MUT, k, act, ch.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT], 'f'))])
            ctx.say('  fault', kind, 'at', k, 'of', n, o.kind)
            for nm, c in o.fired.items():
                ctx.fault(nm, c)
            ctx.nontrivial = True
            if o.kind == 'died':
                ctx.require(kind in ('sticky', 'once') and o.code in (-11, -7, -6), 'died', f'{kind}: the process died with code {o.code}')
                ctx.probe('hdf5-library-crash-after-write-error')
            elif o.kind == 'raised':
                ctx.require(o.fired and kind in ('sticky', 'once'), 'save-failed', f'{kind}: {o}')
                ctx.probe('raised')
            else:
                ctx.require(o.kind == 'ok', 'hung', f'{o}')
                ctx.require(not (o.fired and kind == 'sticky'), 'silent-failure', f'operation {k} of {n} failed for good and the save returned')
            if o.kind == 'ok' and kind != 'once':
                files[f].update({(path, m.name): facts(m) for m in ms})
            else:
                back(f, keep)
        for m, b in zip(ms, before):
            d = diff(facts(m), b)
            ctx.require(not d, 'memory-changed', f'saving changed {m.name}: {d}')
        check(f, 'file-wrong', f'step {step} ({what})')


def back(f, keep):
    if os.path.exists(f):
        os.remove(f)
    if keep:
        shutil.copy('keep', f)


def settle(ctx, f, path, ms, bad, files):
    """after a failed save: materials saved before the failing one are new, the failing one is old, new or absent, never half"""
    model = files[f]
    if not os.path.exists(f):
        return
    with h5py.File(f, 'r') as h:
        g = h.get(path) if path else h
        for i, m in enumerate(ms):
            key = (path, m.name)
            if g is None or m.name not in g:
                if key in model:
                    ctx.probe('overwrite-lost-old')
                model.pop(key, None)
                continue
            try:
                d = diff(facts(M.Material(f'{path}/{m.name}' if path else m.name, h)), facts(m))
            except Exception as e:
                ctx.fail('half-saved', f'a failed save left {m.name} in a state that cannot be loaded, so the file cannot either: {e!r}'[:300])
            if not d:
                model[key] = facts(m)
            else:
                ctx.require(key in model, 'half-saved', f'a failed save left {m.name} with other values: {d}')
