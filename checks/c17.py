"""C17 near-field confidence maps are independent of how the work is split."""
import itertools
import logging
import os
import tempfile
from types import SimpleNamespace as NS

import numpy as np

from . import common as C
from . import instr as I
from sim import core, procs

TECHNIQUE = 'seeded process-pool and rank schedules (chunk assignment, durations, completion order, fork and spawn) against a coordinate-by-coordinate evaluation'
QUICK, THOROUGH = 700, 40000
RULE = ('Each run tests 1-3 near-field grids (1-45 coordinates, 1-6 grains, two detectors, beam stops, limits) on 1-9 real workers, forked or spawned, behind a simulated pool that decides chunk assignment, '
        'durations and completion order, on a single rank or on 2-7 simulated MPI ranks whose shares are gathered on rank 0.')
REAL = ['hexrd.hedm.grainmap.nfutil.test_orientations, multiproc_inner_loop, grand_loop_pool, get_offset_size, gather_confidence, build_controller', 'worker code in forked processes', 'state files of spawned workers on the real filesystem']
STUB = ['process pool (chunk assignment, durations, completion order; a spawned worker is a fork with the package\'s globals reset)', 'MPI (ranks run one after another, with the root last; Gatherv checks counts and types)', 'progress observer']
ASSUME = ['simulateGVecs, gvec_to_xy and the precomputed rotations are the repository\'s own', 'mpi4py is not installed: the ranks are simulated by setting the module\'s rank, world size and communicator']


class World:
    pass


def make_world(r, n_max, pd, chi):
    w = World()
    rows, cols, nf, px = 26, 34, 12, 0.13
    tilt = r.uniform(-.02, .02, 3)
    e = NS()
    e.exp_maps = r.uniform(-1, 1, (n_max, 3))
    e.n_grains = n_max
    e.plane_data = pd
    e.pixel_size = (px, px)
    e.ome_range = [(-np.pi / 2, np.pi / 2)]
    e.ome_period = (-np.pi / 2, 1.5 * np.pi)
    e.rMat_c = rot.rotMatOfExpMap(e.exp_maps.T).reshape(-1, 3, 3)
    e.chi = chi
    e.tVec_s = np.zeros(3)
    e.rMat_d = xfcapi.make_detector_rmat(tilt)
    e.tVec_d = np.array([.1, -.2, -8.])
    e.detector_params = np.hstack([tilt, e.tVec_d, chi, e.tVec_s])
    e.distortion = None
    e.base = np.array([-cols * px / 2, -rows * px / 2, -np.pi / 2])
    e.inv_deltas = 1. / np.array([px, px, np.pi / nf])
    e.clip_vals = np.array([cols, rows])
    e.bsp = np.array([0., r.choice([.3, 0.])])
    e.image_shape = nf, rows, cols
    w.exp = e
    w.image = r.random((nf, rows, cols)) < .4
    w.coords = r.uniform(-.5, .5, (45, 3))
    w.ref = reference(w)
    return w


def reference(w):
    """one coordinate of one grain at a time"""
    e = w.exp
    out = np.zeros((e.n_grains, len(w.coords)))
    for g, em in enumerate(e.exp_maps):
        gp = np.hstack([em, 0., 0., 0., 1., 1., 1., 0., 0., 0.])
        angs = simulate(e.plane_data, e.detector_params, gp, panel_dims=[(-10, -10), (10, 10)], pixel_pitch=e.pixel_size, ome_range=e.ome_range, ome_period=e.ome_period, distortion=None)[2]
        rs = xfcapi.make_sample_rmat(e.chi, angs[:, 2])
        gv = nf._anglesToGVec(angs, rs, e.rMat_c[g])
        for c, crd in enumerate(w.coords):
            xy = xfcapi.gvec_to_xy(gv, e.rMat_d, rs, e.rMat_c[g], e.tVec_d, e.tVec_s, crd)
            seen = hit = 0
            for (x, y), o in zip(xy, angs[:, 2]):
                if abs(y - e.bsp[0]) < e.bsp[1] / 2:
                    continue
                i, j = np.floor((x - e.base[0]) * e.inv_deltas[0]), np.floor((y - e.base[1]) * e.inv_deltas[1])
                if 0 <= i < e.clip_vals[0] and 0 <= j < e.clip_vals[1]:
                    seen += 1
                    hit += bool(w.image[int(np.floor((o - e.base[2]) * e.inv_deltas[2])), int(j), int(i)])
            out[g, c] = hit / seen if seen else 0
    return out


def setup():
    global nf, xfcapi, rot, simulate, WORLDS
    C.set_cpus(6)
    np.seterr(all='ignore')
    logging.disable(logging.WARNING)
    Material, _, _ = I.load()
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    from hexrd.hedm.grainmap import nfutil as nf
    from hexrd.hedm.xrdutil import simulateGVecs as simulate
    import joblib, joblib.numpy_pickle    # noqa: E401  (not imported again in every run)
    core.watch([nf.__file__])
    r = np.random.default_rng(3)
    WORLDS = [make_world(r, n, I.plane_data(Material, k, energy=e), chi) for n, k, e, chi in ((6, 4, 65., 0.), (3, 7, 50., .02), (1, 5, 65., 0.))]
    w = WORLDS[0]
    quiet = nf.ProcessController(nf.forgetful_result_handler(), nf.null_progress_observer(), 1, 20)
    for w in WORLDS:
        nf.test_orientations(w.image, experiment(w), w.coords, quiet)


def experiment(w):
    import argparse
    return argparse.Namespace(**vars(w.exp))


class ObserverError(Exception):
    pass


class Observer:
    def __init__(self, fail_at=0):
        self.log = []
        self.left = fail_at
        self.failed = False

    def tick(self):
        self.left -= 1
        if self.left == 0:
            self.failed = True
            raise ObserverError

    def start(self, name, count):
        self.tick()
        self.log.append((name, count, []))

    def update(self, value):
        self.tick()
        self.log[-1][2].append(value)

    def finish(self):
        self.tick()

    def of(self, name):
        return [(n, v) for k, n, v in self.log if k == name]


class Handler:
    def __init__(self):
        self.got = []

    def handle_result(self, key, value):
        self.got.append((key, value))


class Comm:
    """the part of an MPI communicator that is used, for ranks that run one after another"""

    def __init__(self, size):
        self.size = size
        self.sent = {}
        self.rank = None

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Gatherv(self, send, recv, root=0):
        send = np.asarray(send)
        out, counts = recv[0], recv[1]
        if send.dtype != np.float64 or not send.flags.c_contiguous:
            raise TypeError('send buffer')
        if self.rank in self.sent:
            raise RuntimeError('a rank gathered twice')
        self.sent[self.rank] = np.array(send).ravel()
        if send.size != counts[self.rank]:
            raise RuntimeError(f'MPI_ERR_TRUNCATE: rank {self.rank} sends {send.size}, {counts[self.rank]} expected')
        if self.rank == root:
            if len(self.sent) != self.size:
                raise RuntimeError('harness: the root gathers last')
            pos = 0
            for k in range(self.size):
                out[pos:pos + counts[k]] = self.sent[k]
                pos += counts[k]


class Job:
    def __init__(self, ch, ctx, j, mpi=True):
        self.w = w = ch.pick(WORLDS)
        self.n = ch.pick([12, 5, 45, 30, 1, 7, 2, 23])
        r = np.random.default_rng(ch.bits())
        self.rows = r.permutation(len(w.coords))[:self.n]
        self.coords = np.ascontiguousarray(w.coords[self.rows])
        self.ncpus = ch.pick([2, 3, 1, 4, 9])
        self.chunk = ch.pick([2, 3, 1, 5, 10, 100])
        self.method = ch.pick(['fork', 'fork', 'spawn'])
        self.limit = ch.pick([None, None, 1, 4, 11, 100])
        self.ranks = ch.pick([1, 1, 2, 3, 7]) if mpi else 1
        self.order = [int(i) + 1 for i in r.permutation(self.ranks - 1)] + [0]
        self.size = self.n if self.limit is None else min(self.limit, self.n)
        self.want = w.ref[:, self.rows[:self.size]]
        ctx.say('grid', j, self.w.exp.n_grains, 'grains', self.n, 'coordinates, limit', self.limit, 'processes', self.ncpus, 'chunks', self.chunk, self.method, 'ranks', self.order)

    def controller(self):
        c = nf.build_controller(ncpus=self.ncpus, chunk_size=self.chunk, limit=self.limit)
        c.rh, c.po = Handler(), Observer()
        return c

    def parallel(self, size):
        return min(self.ncpus, -(-size // self.chunk)) > 1

    def call(self, c):
        return nf.test_orientations(self.w.image, experiment(self.w), self.coords, c, self.method)

    def check(self, ctx, j, got, c, size=None):
        size = self.size if size is None else size
        (n, v), = c.po.of('grand_loop')
        steps = np.diff([0] + v)
        ctx.require(sum(steps) == size and all(steps > 0), 'progress', lambda: f'grid {j}: progress {v} of {size} coordinates')
        ctx.require(n == self.size, 'progress', f'grid {j}: progress of {n} announced for {self.size} coordinates')
        return np.shape(got)

    def run(self, ctx, j):
        if self.ranks == 1:
            c = self.controller()
            got = self.call(c)
            self.check(ctx, j, got, c)
        else:
            comm = Comm(self.ranks)
            old = {k: vars(nf).get(k) for k in ('rank', 'USE_MPI')}
            conf, shares, ctl = [], [], {}
            try:
                for k in self.order:
                    nf.rank, nf.world_size, nf.USE_MPI, nf.comm = k, self.ranks, True, comm
                    comm.rank = k
                    ctl[k] = c = self.controller()
                    got = self.call(c)
                    shares.append(np.shape(got)[1])
                    self.check(ctx, j, got, c, shares[-1])
                    conf += c.rh.got
                ctx.require(all(not ctl[k].rh.got for k in self.order if k), 'gather', f'grid {j}: a rank other than 0 reported a result')
            finally:
                nf.rank, nf.USE_MPI = old['rank'], old['USE_MPI']
                del nf.world_size, nf.comm
            ctx.require(sum(shares) == self.size, 'shares', f'grid {j}: the ranks computed {shares} of {self.size} coordinates')
            ctx.require(max(shares) - min(shares) <= max(self.ranks, 1) and comm.sent.keys() == set(self.order), 'shares', f'grid {j}: shares {shares}')
        res = c.rh.got
        ctx.require([k for k, _ in res] == ['confidence'], 'result', f'grid {j}: reported {[k for k, _ in res]}')
        conf = res[0][1]
        ctx.require(C.same(np.array(conf), self.want), 'confidence', lambda: f'grid {j}: {C.describe_diff(np.array(conf), self.want)}')
        if self.ranks == 1:
            ctx.require(C.same(np.array(got), self.want), 'confidence', lambda: f'grid {j}: returned {C.describe_diff(np.array(got), self.want)}')
        ctx.evals += 1
        ctx.probe(('ranks-' if self.ranks > 1 else '') + (self.method if self.parallel(self.size // self.ranks) else 'serial'))


def poison():
    """freed memory holds neither zeros nor results of an earlier run"""
    a = [np.full(n, 7.77) for n in (1, 3, 6, 12, 24, 48, 96, 192, 270) for _ in range(6)]
    del a


def run(ch, ctx):
    jobs = [Job(ch, ctx, j) for j in range(ch.between(1, 3))]
    tempfile.tempdir = os.path.abspath('.')

    def body():
        for j, job in enumerate(jobs):
            poison()
            job.run(ctx, j)
            ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left after grid {j}')
    ctx.sim(body)
