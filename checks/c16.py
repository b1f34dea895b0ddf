"""C16 cancelled or failed fits end promptly, cleanly and visibly."""
import numpy as np

from . import common as C
from . import c15
from .c15 import Job
from sim import core, procs

TECHNIQUE = 'seeded process-pool schedules with cancellation at any moment and raising workers, followed by further fits judged against a grain-by-grain reference'
QUICK, THOROUGH = 360, 40000
WALL_THOROUGH = 5400
RULE = ('Each run performs 2-4 fits one after another; in each the cancel callback may fire at any poll or moment of simulated time, or raise, workers raise at random batches or on grains that cannot be '
        'simulated, and worker durations range from a millisecond to 30 s; every returned fit is compared with the reference fit of each grain.')
REAL = ['hexrd.hedm.fitgrains.fit_grains and fit_grain_FF_reduced', 'pull_spots and fitGrain', 'worker code in forked processes', 'spot files and overlap tables on the real filesystem']
STUB = ['process pool (chunk assignment, durations, completion order; a spawned worker is a fork with the package\'s globals reset)', 'thread scheduler, locks and clock', 'the config object (plain attributes)']
ASSUME = ['pull_spots, fitGrain and objFuncFitGrain are the repository\'s own, called serially for one grain at a time', 'images are synthetic', 'a killed worker of multiprocessing.Pool is not simulated: the standard library itself hangs then']
POLL = 0.25


class CallbackError(Exception):
    pass


def setup():
    global fg
    c15.setup(npanels=(1,), fits=(0,))
    from hexrd.hedm import fitgrains as fg


def run(ch, ctx):
    pol = procs.Policy(ch)
    plans = []
    for j in range(ch.between(2, 4)):
        members = range(c15.NGRAINS) if ch.chance(0.7) else [0, 1, 2, 4, c15.OUTSIDE]
        job = Job(ch, ctx, j, fits=(0,), members=members)
        what = ch.pick(['none', 'cancel-poll', 'cancel-time', 'cancel-error', 'never', 'worker'])
        arg = {'cancel-poll': lambda: ch.between(1, 6), 'cancel-error': lambda: ch.between(1, 6), 'cancel-time': lambda: ch.pick([0.01, 0.2, 0.26, 0.9, 5., 31.])}.get(what, lambda: 0)()
        plans.append((job, what, arg))
        ctx.say('   ', what, arg)

    def fit(j, job, what, arg):
        sim = core.SIM
        t0 = sim.now
        st = {'n': 0, 'fired': None, 'last': t0, 'gap': 0.}

        def cancel():
            st['n'] += 1
            st['gap'] = max(st['gap'], sim.now - st['last'])
            st['last'] = sim.now
            hit = (what == 'cancel-poll' or what == 'cancel-error') and st['n'] >= arg or what == 'cancel-time' and sim.now - t0 >= arg
            if hit and st['fired'] is None:
                st['fired'] = sim.now
            if hit and what == 'cancel-error':
                raise CallbackError
            return hit
        before = pol.faults
        pol.raise_p = 0.4 if what == 'worker' else 0.
        pol.max_faults = before + 1
        bad = [i for i in job.order if isinstance(job.expect(i), str)]
        asked = None if what in ('none', 'worker') else cancel
        try:
            got = job.call(asked)
        except CallbackError:
            ctx.require(st['fired'] is not None, 'spurious', f'fit {j}: error without a cause')
            ctx.fault('callback-error')
            return
        except core.InjectedError:
            ctx.require(pol.faults > before, 'spurious', f'fit {j}: an error of an earlier fit was raised')
            ctx.probe('failed')
            return
        except RuntimeError as e:
            ctx.require(bad and 'relfections' in str(e), 'spurious', f'fit {j} raised {e!r}')
            ctx.fault('worker-error')
            return
        finally:
            ctx.require(procs.live_workers() == 0, 'workers-left', f'{procs.live_workers()} worker processes left after fit {j} ({what})')
            if st['fired'] is not None:
                ctx.require(sim.now - st['fired'] <= POLL + 0.01, 'slow-cancel', f'fit {j} ended {sim.now - st["fired"]:.3f} s after it was cancelled')
            if st['n']:
                gap = max(st['gap'], sim.now - st['last'])
                ctx.require(gap <= POLL + 0.01, 'slow-cancel', f'fit {j}: {gap:.3f} s without asking whether it is cancelled')
        if st['fired'] is not None:
            ctx.require(got is None, 'results-after-cancel', f'fit {j}: cancelled, and returned {type(got).__name__}')
            ctx.fault('cancel')
            return
        ctx.require(got is not None, 'spurious', f'fit {j}: no results, but nobody cancelled it')
        ctx.require(pol.faults == before and not bad, 'swallowed', f'fit {j}: a worker failed and results were returned')
        ctx.require(asked is None or st['n'] > 0, 'uncancellable', f'fit {j} never asked whether it is cancelled')
        job.check(ctx, got, j)
        ctx.probe('completed')

    def body():
        for j, p in enumerate(plans):
            fit(j, *p)
    ctx.sim(body, policy=pol)
