"""C18 near-field runs clean up after themselves, even on failure."""
import errno
import os
import tempfile

from . import common as C
from . import c17
from .c17 import Job
from sim import core, disk, procs

TECHNIQUE = 'seeded process-pool schedules with raising workers, failing progress callbacks, failing disk writes and reads, over histories of runs'
QUICK, THOROUGH = 700, 40000
RULE = ('Each run tests 2-4 near-field grids one after another (fork and spawn, 1-9 workers); in each a worker may raise at any chunk, the progress callback at any call, or writing or reading the state '
        'files may fail once or for good (EIO, ENOSPC, short, interrupted); every returned matrix is compared with a coordinate-by-coordinate evaluation.')
REAL = ['hexrd.hedm.grainmap.nfutil.test_orientations, grand_loop_pool, worker_init, multiproc_inner_loop', 'joblib state files on the real filesystem', 'worker code in forked processes']
STUB = ['process pool (chunk assignment, durations, completion order; a spawned worker is a fork with the package\'s globals reset)', 'disk errors injected at the system calls', 'progress observer']
ASSUME = ['a killed worker of multiprocessing.Pool is not simulated: the standard library itself hangs then', 'removing the temporary directory is not failed itself', 'simulateGVecs and gvec_to_xy are the repository\'s own']


def setup():
    global nf
    c17.setup()
    nf = c17.nf


def run(ch, ctx):
    pol = procs.Policy(ch)
    plans = []
    for j in range(ch.between(2, 4)):
        job = Job(ch, ctx, j, mpi=False)
        what = ch.pick(['none', 'worker', 'observer', 'write', 'read', 'handler'])
        if what in ('write', 'read') and ch.chance(0.8):
            job.method, job.ncpus, job.chunk = 'spawn', ch.pick([2, 3, 5]), ch.pick([1, 2, 4])
        arg = {'observer': lambda: ch.between(1, 24), 'write': lambda: (ch.between(1, 12), ch.pick([disk.FAIL, disk.STICKY, disk.SHORT, disk.INTR]), ch.pick([errno.EIO, errno.ENOSPC])),
               'read': lambda: (ch.between(1, 60), ch.pick([disk.FAIL, disk.STICKY]), errno.EIO)}.get(what, lambda: 0)()
        plans.append((job, what, arg))
        ctx.say('   ', job.method, job.ncpus, job.chunk, 'fails:', what, arg)
    scratch = os.path.abspath('scratch')
    os.mkdir(scratch)
    tempfile.tempdir = scratch
    fds = len(os.listdir('/proc/self/fd'))

    class HandlerError(Exception):
        pass

    def failing(key, value):
        raise HandlerError

    def grid(j, job, what, arg):
        before = pol.faults
        pol.raise_p = 0.3 if what == 'worker' else 0.
        pol.max_faults = before + 1
        c = job.controller()
        if what == 'observer':
            c.po = c17.Observer(arg)
        if what == 'handler':
            c.rh.handle_result = failing
        if what in ('write', 'read'):
            disk.clear()
            disk.plan(disk.WRITE if what == 'write' else disk.READ, *arg)
            disk.on(True)
        c17.poison()
        try:
            try:
                got = job.call(c)
            finally:
                if what in ('write', 'read'):
                    disk.on(False)
                    disk.unplan()
        except core.InjectedError:
            ctx.require(pol.faults > before, 'spurious', f'grid {j}: an error of an earlier run')
            ctx.probe('worker')
        except (c17.ObserverError, HandlerError):
            ctx.fault('callback-error')
        except (OSError, EOFError, ValueError, MemoryError) as e:
            ctx.require(what in ('write', 'read') and job.parallel(job.size) and job.method == 'spawn' and arg[1] in (disk.FAIL, disk.STICKY), 'spurious', f'grid {j} raised {e!r}')
            ctx.fault(what + '-error')
        else:
            ctx.require(pol.faults == before and not c.po.failed and what != 'handler', 'swallowed', f'grid {j}: a failure did not reach the caller')
            if what == 'write' and arg[1] in (disk.FAIL, disk.STICKY):
                ctx.require(not disk.fired(arg[1]), 'swallowed', f'grid {j}: a write error did not reach the caller')
            job.check(ctx, j, got, c)
            ctx.require(C.same(got, job.want), 'confidence', lambda: f'grid {j}: {C.describe_diff(got, job.want)}')
            ctx.evals += 1
            ctx.probe('completed')
        ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left after grid {j} ({what})')
        ctx.require(not os.listdir(scratch), 'files-left', f'grid {j} ({what}) left {len(os.listdir(scratch))} files or directories behind')
        ctx.require(not hasattr(nf, '_mp_state'), 'state-left', f'grid {j} ({what}) left its data in the module')

    def body():
        for j, p in enumerate(plans):
            grid(j, *p)
        n = len(os.listdir('/proc/self/fd'))
        ctx.require(n <= fds + 2, 'files-open', f'{n - fds} files were left open')
    ctx.sim(body, policy=pol)
