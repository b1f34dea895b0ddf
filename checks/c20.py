"""C20 grain and spot output files are complete or the failure is reported."""
import errno
import io
import itertools
import logging
import os
import shutil
import warnings
from pathlib import Path
from types import SimpleNamespace as NS

import numpy as np

from . import common as C
from . import instr as I
from sim import core, disk

TECHNIQUE = 'seeded interleavings of several writers with disk faults and kills at any file operation, against the rows that were given to them'
QUICK, THOROUGH = 1000, 80000
RULE = ('Each run uses 1-3 writers at once (spot text files, grain text files on a path or open handle, grain arrays, HDF5 grain files on a path or open file), interleaved row by row or from threads, or one of '
        'GrainData round trips, fit-grains and find-orientations result writing, and pull_spots with text or HDF5 output; first cleanly, then 1-3 times with one seeded disk fault (error once or for good, short or interrupted write, kill before or inside an operation).')
REAL = ['PatchDataWriter, GrainDataWriter, GrainDataWriter_h5', 'GrainData save, load, write_grains_out, from_grains_out', 'hexrd.hedm.cli fit_grains and find_orientations write_results', 'pull_spots', 'Python and HDF5 file layers on real files', 'process kill by _exit inside the failing system call']
STUB = ['file-system calls below the scratch directory pass the LD_PRELOAD fault seam', 'thread scheduler', 'config objects (plain attributes)']
ASSUME = ['a kill keeps every completed write and possibly a prefix of the one in progress', 'completeness is written to six decimals and chi^2 and intensities to seven digits', 'a writer is closed explicitly; each writer is used by one thread',
          'HDF5 2.0 itself can crash the process after a write error (counted, not judged) and swallows a momentary error while closing an object, so for HDF5 files only errors that persist are judged, and what a kill leaves of them is only required not to be taken for other rows']
WORDS = ['a', 'p0', 'GE 1']


def setup():
    global hi, fg, fo, h5py, W, cfgs, logm_ok
    import h5py
    from scipy.linalg import logm
    C.set_cpus(2)
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings('ignore')
    Material, HI, OIS = I.load()
    from hexrd.core.instrument import hedm_instrument as hi
    from hexrd.hedm.cli import fit_grains as fg, find_orientations as fo
    core.watch([hi.__file__, fg.__file__])
    from . import c15
    W = c15.make_world(np.random.default_rng(5), 2, Material, HI, OIS)
    r = np.random.default_rng(0)
    cfgs = [I.instrument_config({k: I.panel_config(r, 10, 12, buffer=b) for k in WORDS[:n]}) for n, b in ((1, None), (2, [1., 2.]), (3, None))]
    os.makedirs('warm', exist_ok=True)
    try:
        for f in ('text', 'hdf5'):
            spots('warm', f, 0, 1)
    except Exception:
        pass
    shutil.rmtree('warm')
    w = hi.GrainDataWriter(array=np.zeros((1, 21)))
    w.dump_grain(0, 1., 0., np.array([.1, .2, .3, 0, 0, 0, 1., 1., 1., 0, 0, 0]))


def spots(d, fmt, g, which, full=False):
    kw = dict(filename='spots_%05d.out' % g, output_format=fmt, dirname=d) if fmt else {}
    return W.inst.pull_spots(W.pd, W.table[g][3:15], W.ims, tth_tol=2., eta_tol=6., ome_tol=6., npdiv=1, threshold=(10, 1e6, 500)[which], return_spot_list=full, **kw)


def strain(v):
    """log strain belonging to an inverse stretch, by eigenvalues"""
    s = np.sqrt(2)
    m = np.array([[v[0], v[5] / s, v[4] / s], [v[5] / s, v[1], v[3] / s], [v[4] / s, v[3] / s, v[2]]])
    e, q = np.linalg.eigh(m)
    x = q @ np.diag(-np.log(e)) @ q.T
    return np.array([x[0, 0], x[1, 1], x[2, 2], x[1, 2], x[0, 2], x[0, 1]])


def gen_grain(ch, r, k):
    v = np.array([1., 1., 1., 0, 0, 0]) + (r.normal(0, 10. ** ch.pick([-3, -6, -1.5]), 6) if ch.chance(0.8) else 0)
    gid = ch.pick([k, 0, 99999, np.int64(7), 10 ** 9])
    return gid, float(r.random()) if ch.chance(0.8) else 1.0, float(r.random() * 10. ** ch.pick([-3, 0, 5, -20])), np.hstack([r.normal(0, 1, 3), r.normal(0, 1e-2, 3), v])


def grain_row(g):
    gid, comp, chi, p = g
    return np.hstack([[gid, comp, chi], p, strain(p[6:])])


def gen_patch(ch, r, k):
    lost = ch.chance(0.2)
    it = [float, np.float32, np.int64, np.uint16][ch.below(4)]
    return (ch.pick([k, -100 - k]), ch.pick([k, np.int32(3), 1234567]), r.integers(-9, 10, 3), it(r.random() * 60000), it(r.random() * 60000), r.normal(0, 1, 3),
            None if lost else r.normal(0, 1, 3), r.normal(0, 200, 2), None if lost else r.normal(0, 200, 2))


def patch_row(p):
    pid, hid, hkl, s, m, pa, ma, px, mx = p
    if ma is None:
        s = m = np.nan
        ma, mx = np.full(3, np.nan), np.full(2, np.nan)
    return np.hstack([[pid, hid], hkl, [s, m], pa, ma, px, mx])


def close_rows(got, want, rough):
    """exact but for the columns written with fewer digits"""
    if got.shape != want.shape:
        return f'{len(got)} rows of {got.shape[1:]}, expected {len(want)} of {want.shape[1:]}'
    for i, (a, b) in enumerate(zip(got, want)):
        for j, (x, y) in enumerate(zip(a, b)):
            tol = rough.get(j, 0)
            if not (x == y or (np.isnan(x) and np.isnan(y)) or (callable(tol) and tol(x, y)) or (not callable(tol) and tol and abs(x - y) <= tol * max(1e-300, abs(y)))):
                return f'row {i} column {j}: {x!r}, expected {y!r}'
    return None


GR = {1: lambda x, y: abs(x - y) <= 0.6e-6, 2: 1e-6, **{k: (lambda x, y: abs(x - y) <= 1e-9 * max(1, abs(y) * 1e3)) for k in range(15, 21)}}
PR = {5: 1e-6, 6: 1e-6}


def table(text):
    rows = [[float(x) for x in ln.split()] for ln in text.split('\n') if ln and not ln.startswith('#')]
    return np.array(rows) if rows else np.zeros((0, 0))


class Out:
    """one output: how to produce it, and how to check its file against what was given"""
    hdf5 = False
    array = None

    def __init__(self, ch, ctx, r, k):
        self.name = os.path.join(ctx.tmp, f'out{k}')
        n = ch.pick([4, 1, 12, 0, 60])
        self.kind = ch.pick(['grain', 'patch', 'h5', 'array'], 'w', [4, 4, 3, 1])
        self.handle = ch.chance(0.25) and self.kind != 'array'
        self.hdf5 = self.kind == 'h5'
        self.attr = ch.chance(0.3)
        self.twice = ch.chance(0.3)
        if self.kind == 'patch':
            self.rows = [gen_patch(ch, r, i) for i in range(n)]
        elif self.kind == 'h5':
            self.cfg = ch.pick(cfgs)
            self.par = gen_grain(ch, r, 0)[3]
            self.rows = [self.gen_spot(ch, r, i) for i in range(min(n, 12))]
        else:
            self.rows = [gen_grain(ch, r, i) for i in range(n)]
        self.file = self.name + ('.hdf5' if self.hdf5 and not self.handle else '')
        self.as_path = ch.chance(0.3)
        ctx.say('writer', k, self.kind, 'rows', len(self.rows), 'handle' if self.handle else 'path')

    def gen_spot(self, ch, r, i):
        a, b, c = ch.pick([3, 1]), ch.between(1, 4), ch.between(1, 5)
        lost = ch.chance(0.2)
        mx = None if lost else r.normal(0, 200, 2)
        return (ch.pick(list(self.cfg['detectors'])), i, ch.pick([i, -100]), ch.below(9), r.integers(-9, 10, 3), np.sort(r.random(c + 1)), np.sort(r.random(b + 1)), r.random(a), r.random((2, b, c)),
                (r.integers(0, 99, (b, c)), r.integers(0, 99, (b, c))), [int(x) for x in r.integers(0, 99, a)], (r.random((a, b, c)) * 1e4).astype(ch.pick(['f4', 'f8', 'u2'])), r.normal(0, 1, 3), r.normal(0, 200, 2), None if lost else r.normal(0, 1, 3), mx)

    def start(self):
        if self.kind == 'array':
            self.array = np.zeros((len(self.rows), 21))
            return hi.GrainDataWriter(array=self.array)
        if self.hdf5:
            f = h5py.File(self.name, 'w') if self.handle else (Path(self.name) if self.as_path else self.name)
            return hi.GrainDataWriter_h5(f, self.cfg, self.par, use_attr=self.attr and self.cfg is cfgs[0])
        f = open(self.name, 'w') if self.handle else (Path(self.name) if self.as_path else self.name)
        return (hi.PatchDataWriter if self.kind == 'patch' else hi.GrainDataWriter)(f)

    def steps(self):
        """a generator performing one call per step"""
        w = self.start()
        yield
        for row in self.rows:
            if self.kind in ('patch', 'h5'):
                w.dump_patch(*row)
            else:
                w.dump_grain(*row)
            yield
        w.close()
        yield
        if self.twice:
            w.close()

    def check(self, state):
        """None, or how the output differs from the rows"""
        if self.kind == 'array':
            return close_rows(state, np.array([grain_row(g) for g in self.rows]).reshape(-1, 21), GR)
        if self.hdf5:
            return self.check_h5()
        with open(self.file) as f:
            t = f.read()
        if not t.startswith('#') or not t.endswith('\n') or t.count('#') != 1:
            return f'header: {t[:40]!r}'
        want = np.array([(patch_row if self.kind == 'patch' else grain_row)(x) for x in self.rows])
        got = table(t)
        if not len(want):
            return 'rows in an empty file' if len(got) else None
        return close_rows(got, want, PR if self.kind == 'patch' else GR)

    def check_h5(self, partial=False):
        with h5py.File(self.file, 'r') as f:
            g = f['reflection_data']
            if sorted(g) != sorted(self.cfg['detectors']):
                return f'detector groups {sorted(g)}'
            want = {}
            for row in self.rows:
                want[row[0], 'spot_%05d' % row[1]] = row
            have = {(k, s) for k in g for s in g[k]}
            if have != set(want):
                return f'{len(have)} spots, {len(want)} given'
            for (k, s), row in want.items():
                d = check_spot(g[k][s], row)
                if d:
                    return f'{k}/{s}: {d}'
            gg = f['grain'].attrs if self.attr and self.cfg is cfgs[0] else f['grain']
            if not C.same(np.array(gg['tvec_c']).ravel(), self.par[3:6]) or not C.same(np.array(gg['inv(V)_s']).ravel(), self.par[6:]):
                return 'grain parameters differ'
            if sorted(f['instrument/detectors']) != sorted(self.cfg['detectors']):
                return 'instrument detectors differ'


def check_spot(s, row):
    (_, _, pid, hid, hkl, te, ee, om, xy, ij, fr, data, pa, px, ma, mx) = row
    at = {'peak_id': pid, 'hkl_id': hid, 'hkl': hkl, 'predicted_angles': pa, 'predicted_xy': px, 'measured_angles': np.full(3, np.nan) if ma is None else ma}
    if mx is not None:
        at['measured_xy'] = mx
    elif not np.isnan(s.attrs['measured_xy']).all():
        return 'measured position of an unmeasured spot'
    for k, v in at.items():
        if not np.array_equal(np.asarray(s.attrs[k], float), np.asarray(v, float), equal_nan=True):
            return f'{k}: {s.attrs[k]} given {v}'
    for k, v in {'tth_crd': (te[1:] + te[:-1]) / 2, 'eta_crd': (ee[1:] + ee[:-1]) / 2, 'ome_crd': om, 'xy_centers': xy, 'ij_centers': np.array(ij), 'frame_indices': fr, 'intensities': data}.items():
        a = np.asarray(s[k])
        if a.shape != np.shape(v) or not np.allclose(a, v, rtol=1e-12 if k.endswith('crd') else 0, atol=0, equal_nan=True):
            return f'{k} differs'
    return None


class Group:
    """several writers used at once"""

    def __init__(self, ch, ctx, r):
        self.outs = [Out(ch, ctx, r, k) for k in range(ch.between(1, 3))]
        self.threads = ch.chance(0.3) and not any(o.hdf5 for o in self.outs)
        self.order = list(r.integers(0, len(self.outs), 400))
        self.hdf5 = any(o.hdf5 for o in self.outs)
        ctx.say('threads' if self.threads else 'interleaved')
        if len(self.outs) > 1:
            ctx.probe('writers-at-once')
        self.cls = type(ch)

    def files(self):
        return [o.file for o in self.outs if o.kind != 'array']

    def produce(self, seed):
        """-> what each writer reported, and array contents"""
        err = [None] * len(self.outs)
        done = [False] * len(self.outs)

        def one(i, gens={}):
            if gens.get(i) is None:
                gens[i] = self.outs[i].steps()
            try:
                next(gens[i])
            except StopIteration:
                done[i] = True
            except Exception as e:
                err[i] = repr(e)[:150]
                done[i] = True
            return done[i]
        if self.threads:
            def body():
                T = C.Threads()
                for i in range(len(self.outs)):
                    T.go(lambda i=i: [None for _ in iter(lambda: one(i), True)])
                T.join()
            sim = core.Sim(self.cls(seed), mode='medium')
            sim.fatal = lambda s, m: os._exit(99)
            sim.run(body)
        else:
            for i in itertools.chain(self.order, itertools.cycle(range(len(self.outs)))):
                if not done[i]:
                    one(i)
                if all(done):
                    break
        return err, [o.array for o in self.outs]

    def check(self, value, only=None):
        for i, o in enumerate(self.outs):
            if value[0][i] is None:
                d = o.check(value[1][i])
                if d:
                    return f'{o.kind} {os.path.basename(o.file)}: {d}'

    def text_files(self):
        return [o.file for o in self.outs if o.kind in ('grain', 'patch')]


class Single:
    """one call that writes files"""
    hdf5 = False

    def __init__(self, ch, ctx, r):
        self.tmp = ctx.tmp
        self.what = ch.pick(['grains-out', 'npz', 'results', 'orientations', 'spots'], 'w', [3, 3, 3, 2, 2])
        n = ch.pick([3, 1, 20, 0]) if self.what != 'results' else ch.pick([3, 1, 20])
        self.grains = [gen_grain(ch, r, i) for i in range(n)]
        self.tab = np.array([grain_row(g) for g in self.grains]).reshape(-1, 21)
        self.quats = r.normal(0, 1, (4, n))
        self.quats[0] = abs(self.quats[0])
        self.quats /= np.sqrt((self.quats ** 2).sum(0)) if n else 1
        self.fmt = ch.pick(['text', 'hdf5'])
        self.g = ch.below(len(W.table))
        self.which = ch.below(3)
        self.full = self.fmt == 'hdf5' or ch.chance(0.5)
        self.hdf5 = self.what == 'spots' and self.fmt == 'hdf5'
        if self.what == 'spots':
            ctx.evals += 1
            self.want = spots(None, None, self.g, self.which, self.full)
            self.trim = spots(None, None, self.g, self.which)
        self.panels = ch.pick([['p0'], ['a', 'b/c']])
        ctx.say(self.what, self.fmt if self.what == 'spots' else n)
        ctx.probe('what-' + self.what)

    def files(self):
        p = lambda *a: os.path.join(self.tmp, 'd', *a)
        if self.what == 'spots':
            f = 'spots_%05d.out' % self.g
            return [p(f + '.hdf5')] if self.hdf5 else [p(k, f) for k in W.inst.detectors]
        return {'grains-out': [p('grains.out')], 'npz': [p('grains.npz')], 'results': [p('grains.out'), p('grains.npz')], 'orientations': [p('q.dat'), p('g.out'), p('s.npz')]}[self.what]

    def text_files(self):
        return [f for f in self.files() if f.endswith('.out')] if self.what != 'results' else [self.files()[0]]

    def data(self):
        return fg.GrainData.from_array(self.tab)

    def produce(self, seed):
        os.makedirs(os.path.join(self.tmp, 'd'), exist_ok=True)
        f = self.files()
        back = None
        try:
            if self.what == 'grains-out':
                self.data().write_grains_out(f[0])
            elif self.what == 'npz':
                self.data().save(f[0])
            elif self.what == 'results':
                fg.write_results(self.grains, NS(analysis_dir=Path(self.tmp) / 'd', instrument=NS(hedm=NS(detectors={k: None for k in self.panels}))))
            elif self.what == 'orientations':
                fo.write_results({'qbar': self.quats, 'scored_orientations': {'test_quaternions': self.quats, 'score': np.arange(3.)}},
                                 NS(find_orientations=NS(accepted_orientations_file=Path(f[0]), grains_file=Path(f[1]), orientation_maps=NS(scored_orientations_file=f[2]))))
            else:
                back = spots(os.path.join(self.tmp, 'd'), self.fmt, self.g, self.which, self.full)
        except Exception as e:
            return [repr(e)[:150]], back
        return [None], back

    def check(self, value):
        if value[0][0] is not None:
            return None
        f = self.files()
        if self.what in ('grains-out', 'results'):
            d = same_grains(fg.GrainData.from_grains_out(f[0]), self.tab, GR)
            if d:
                return 'grains.out: ' + d
        if self.what in ('npz', 'results'):
            d = same_grains(fg.GrainData.load(f[-1]), self.tab, {} if self.what == 'npz' else {k: v for k, v in GR.items() if k > 2})
            if d:
                return 'grains.npz: ' + d
        if self.what == 'orientations':
            q = np.loadtxt(f[0], ndmin=2).reshape(-1, 4)
            if not np.array_equal(q, self.quats.T):
                return 'accepted orientations differ'
            with open(f[1]) as h:
                t = table(h.read()).reshape(-1, 21)
            if len(t) != len(q) or list(t[:, 0]) != list(range(len(q))):
                return f'grains.out has rows {t[:, 0].tolist()} for {len(q)} orientations'
            for x, row in zip(q, t):
                a = np.linalg.norm(row[3:6])
                e = np.hstack([np.cos(a / 2), np.sin(a / 2) * row[3:6] / (a or 1)])
                if abs(abs(e @ x) - 1) > 1e-9 or row[6:9].any() or not np.array_equal(row[9:15], [1, 1, 1, 0, 0, 0]):
                    return f'grains.out row {row} for orientation {x}'
        if self.what == 'spots':
            if pickle_diff(value[1], self.want):
                return 'pull_spots returned something else when it also wrote files'
            for name, rows in self.trim[1].items() if not self.hdf5 else ():
                with open(f[list(W.inst.detectors).index(name)]) as h:
                    t = table(h.read())
                d = close_rows(t, np.array([patch_row((x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[8], x[7])) for x in rows]), PR)
                if d:
                    return f'{name}: {d}'
            if self.hdf5:
                with h5py.File(f[0], 'r') as h:
                    g = h['reflection_data']
                    if sorted(g) != sorted(W.inst.detectors):
                        return f'detectors {sorted(g)}'
                    for k in g:
                        rows = self.want[1].get(k, [])
                        if len(g[k]) != len(rows):
                            return f'{k}: {len(g[k])} spots of {len(rows)}'
                        for row in rows:
                            d = check_spot(g[k]['spot_%05d' % row[1]], row)
                            if d:
                                return f'{k} {row[1]}: {d}'


def pickle_diff(a, b):
    from .c11 import diff
    if list(a[0]) != list(b[0]) or list(a[1]) != list(b[1]):
        return 'x'
    for k in a[1]:
        if len(a[1][k]) != len(b[1][k]):
            return 'x'
        for x, y in zip(a[1][k], b[1][k]):
            for u, v in zip(x, y):
                if isinstance(u, str):
                    if u != v:
                        return 'x'
                elif not np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True):
                    return 'x'


def same_grains(g, tab, rough):
    got = np.hstack([np.asarray(g.id, float).reshape(-1, 1), np.reshape(g.completeness, (-1, 1)), np.reshape(g.chisq, (-1, 1)), np.reshape(g.expmap, (-1, 3)), np.reshape(g.centroid, (-1, 3)),
                     np.reshape(g.inv_Vs, (-1, 6)), np.reshape(g.ln_Vs, (-1, 6))])
    if np.asarray(g.id).dtype.kind != 'i':
        return 'ids are not integers'
    return close_rows(got, tab, rough)


def run(ch, ctx):
    r = np.random.default_rng(ch.bits())
    job = (Group if ch.chance(0.65) else Single)(ch, ctx, r)
    seed = ch.bits()
    sub = os.path.join(ctx.tmp, 'd')

    def clean():
        for f in job.files():
            if os.path.exists(f):
                os.remove(f)
        shutil.rmtree(sub, ignore_errors=True)

    older = ch.chance(0.3)
    o = disk.node(lambda: job.produce(seed), cls=disk.MUT)
    ctx.require(o.kind == 'ok', 'write-failed', f'clean: {o}')
    ctx.require(all(e is None for e in o.value[0]), 'write-failed', f'clean: {o.value[0]}')
    n = o.ops
    d = job.check(o.value)
    ctx.require(not d, 'clean-rows', f'{d}')
    ctx.evals += 1
    full = {f: open(f, 'rb').read() for f in job.text_files()}
    ctx.say('operations', n)
    for _ in range(ch.between(1, 3) if n else 0):
        if not older:
            clean()
        kind = ch.pick(['crash', 'torn', 'sticky', 'once', 'short', 'eintr'], 'f', [4, 3, 4, 3, 1, 1])
        k = 1 + ch.below(n, 'f') if ch.chance(0.6, 'f') else max(1, n - ch.below(6, 'f'))
        err = ch.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT], 'f')
        act = {'crash': disk.CRASH, 'torn': disk.PAGETORN if job.hdf5 else disk.TORN, 'sticky': disk.STICKY, 'once': disk.FAIL, 'short': disk.SHORT, 'eintr': disk.INTR}[kind]
        cls = disk.WRITE if kind in ('short', 'eintr') else disk.MUT
        o = disk.node(lambda: job.produce(seed), [(cls, k, act, err)])
        ctx.say('fault', kind, 'at', k, 'of', n, o.kind)
        for nm, c in o.fired.items():
            ctx.fault(nm, c)
        ctx.nontrivial = True
        ctx.evals += 1
        if o.kind == 'died':
            if job.hdf5 and kind in ('sticky', 'once') and o.code in (-11, -7, -6):
                ctx.probe('hdf5-library-crash-after-write-error')
            else:
                ctx.require(o.code == 77 and kind in ('crash', 'torn'), 'died', f'{kind}: the writing process died with code {o.code}')
                ctx.probe('killed')
            for f, t in full.items():
                if os.path.exists(f):
                    left = open(f, 'rb').read()
                    ctx.require(t.startswith(left) or (older and left == t), 'killed-rows', f'killed at operation {k} of {n}: {os.path.basename(f)} holds {len(left)} bytes that are not a prefix of its {len(t)}')
        else:
            ctx.require(o.kind == 'ok', 'hung', f'{kind}: {o}')
            errs = [e for e in o.value[0] if e is not None]
            if errs:
                ctx.require(o.fired and kind in ('sticky', 'once'), 'write-failed', f'{kind}: {errs}')
                ctx.probe('raised')
            elif o.fired and kind in ('sticky', 'once') and not (kind == 'once' and job.hdf5):
                if kind == 'sticky' or not job.check(o.value) is None:
                    ctx.fail('silent-failure', f'operation {k} of {n} failed ({kind}, {errno.errorcode[err]}) and no call reported it')
            if not (job.hdf5 and kind == 'once'):
                try:
                    d = job.check(o.value)
                except Exception as e:
                    d = repr(e)[:200]
                ctx.require(not d, 'acked-rows', f'{kind} at {k} of {n}: {d}')
        # again on the healthy disk
        if ch.chance(0.3, 'f'):
            o = disk.node(lambda: job.produce(seed))
            ctx.require(o.kind == 'ok' and not any(o.value[0]), 'retry-failed', f'writing again: {o} {o.value}')
            d = job.check(o.value)
            ctx.require(not d, 'retry-rows', f'writing again: {d}')
    clean()
