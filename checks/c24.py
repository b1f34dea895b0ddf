"""C24 the generic parallel map returns ordered results or fails, never hangs."""
import logging
import multiprocessing
import os
import sys

import numpy as np

from . import common as C
from sim import core, mproc

TECHNIQUE = 'seeded schedules of simulated processes and queues over real forked children, with raising functions and killed workers, against the plain sequential map'
QUICK, THOROUGH = 1100, 150000
RULE = ('Each run maps a function over 0-12 items on 1-7 simulated processors, one to three times; the scheduler decides how long each evaluation takes, when the queues deliver and who reads next; '
        'functions return results of every kind, raise for some items, return or raise what cannot be pickled, exit; workers are killed at a seeded queue operation, processes fail to start.')
REAL = ['GenericMultiprocessing.parallelise_function and its worker loop, in forked children']
STUB = ['multiprocessing.Process (forked child whose queue operations go through the simulator)', 'multiprocessing.Queue (order, delays, bounds, feeder threads, locks left by killed workers)', 'cpu_count']
ASSUME = ['a message is written to a pipe as a whole: a worker killed between the two halves of a long message blocks any reader of a multiprocessing queue', 'processes are forked (the default of the pinned Python)',
          'time is bounded in simulated seconds: 100 s more than the slowest evaluation of all items one after another']


def setup():
    global mg
    logging.disable(logging.CRITICAL)
    from hexrd.core.utils import multiprocess_generic as mg
    core.watch([mg.__file__])


class Patched:
    def __init__(self, ncpu):
        self.new = [(multiprocessing.Process, mproc.SimProcess), (multiprocessing.Queue, mproc.SimQueue), (multiprocessing.cpu_count, lambda: ncpu)]

    def __enter__(self):
        self.old = []
        for ns in (vars(mg), vars(multiprocessing)):
            for k, v in list(ns.items()):
                for a, b in self.new:
                    if v is a or (type(v) is type(a) and not isinstance(v, type) and v == a):
                        self.old.append((ns, k, v))
                        ns[k] = b

    def __exit__(self, *a):
        for ns, k, v in self.old:
            ns[k] = v


class Odd(Exception):
    """an exception that cannot be unpickled"""

    def __init__(self, a, b):
        super().__init__(f'{a} {b}')


class Local:
    def __reduce__(self):
        raise TypeError('cannot pickle this')


def same(a, b):
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and C.same(a, b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b


def call(ch, ctx, k, clean):
    ncpu = ch.between(1, 7)
    n = ch.pick([0, 1, 2, 3, 5, 8, 12], 'w', [1, 2, 2, 3, 3, 2, 1])
    ret = ch.pick(['number', 'none', 'short', 'triple', 'array', 'dict', 'big', 'text'])
    how = ch.pick(['list', 'array', 'tuple', 'objects'])
    var = {'list': [3 * i + 1 for i in range(n)], 'array': np.arange(n) * 2., 'tuple': tuple(f'i{i}' for i in range(n)), 'objects': [{'i': i} for i in range(n)]}[how]
    args = tuple(range(ch.pick([0, 0, 1, 2])))
    kwargs = ch.pick([{}, {'scale': 3}, {'scale': 2, 'name': 'x'}])
    bad = None if clean else ch.pick([None, 'raise', 'exit', 'die', 'sysexit', 'unpicklable', 'odd', 'item', 'kill', 'start', 'interrupt'], 'w', [4, 2, 1, 1, 1, 1, 1, 1, 6, 1, 1])
    if n == 0 and bad not in ('kill', 'start'):
        bad = None
    at = set(ch.between(0, n - 1) for _ in range(ch.between(1, 2))) if n else set()
    if bad == 'item':
        var = list(var)
        for i in at:
            var[i] = Local()
    order = {id(v): i for i, v in enumerate(var)} if how == 'objects' else None

    def value(x, *a, scale=1, name=''):
        i = x['i'] if isinstance(x, dict) else x
        s = f'{i}|{a}|{scale}|{name}'
        return {'number': len(s) * scale + (0.5 if a else 0), 'none': None, 'short': (s,), 'triple': (s, 1, 0.25), 'array': np.arange(len(s)) * scale, 'dict': {'s': s, 'a': np.array([scale])}, 'big': np.full(20000, float(len(s))), 'text': s}[ret]

    def func(x, *a, **kw):
        if bad is not None and bad not in ('item', 'kill', 'start') and any(same_item(x, var[i]) for i in at):
            if bad == 'raise':
                raise ValueError('bad item')
            if bad == 'exit':
                os._exit(3)
            if bad == 'die':
                os._exit(0)
            if bad == 'sysexit':
                sys.exit(0)
            if bad == 'interrupt':
                raise KeyboardInterrupt
            if bad == 'odd':
                raise Odd(1, 2)
            return Local() if x is None or True else None
        return value(x, *a, **kw)

    def same_item(a, b):
        return (a['i'] == b['i']) if isinstance(a, dict) else a == b

    want = None if bad == 'item' else [value(x, *args, **kwargs) for x in var]
    w = mproc.World(ch, kill_p=ch.pick([.02, .1, .3]) if bad == 'kill' else 0., start_fail=ch.between(1, ncpu) if bad == 'start' else 0, max_kills=ch.pick([1, 2, 20]))
    w.durations = ch.pick([(.0001, .001, .01, .1, .6, 2., 40.), (.001,), (.5, .6), (30., 40.)], 's')
    mproc.WORLD = w
    g = mg.GenericMultiprocessing()
    err = val = None
    t0 = core.SIM.now
    try:
        with Patched(ncpu):
            try:
                val = g.parallelise_function(var, func, *args, **kwargs)
            except Exception as e:
                err = e
        took = core.SIM.now - t0
        alive = [p.name for p in w.procs if p._pid is not None and not p.dead]
        killed = w.kills
        if killed:
            ctx.fault('worker-killed', killed)
            for x in w.where:
                ctx.probe('killed ' + x)
        elif bad == 'start' and w.starts >= w.start_fail:
            ctx.fault('start-failed')
        elif bad not in (None, 'kill', 'start'):
            ctx.fault(bad)
        ctx.say(k, ncpu, n, ret, how, args, kwargs, bad, sorted(at) if bad else '', killed, 'raised' if err is not None else 'returned')
        ctx.require(not alive, 'worker-left', lambda: f'{alive} still running after the call {"raised" if err is not None else "returned"} ({bad})')
        ctx.require(took <= 100 + (n + 2) * max(w.durations), 'too-slow', f'{took} simulated seconds')
        failed = bad in ('raise', 'exit', 'die', 'sysexit', 'unpicklable', 'odd', 'item', 'interrupt') and n > 0 or bad == 'start' and w.starts >= w.start_fail
        if failed:
            ctx.require(err is not None, 'failure-hidden', lambda: f'{bad} at items {sorted(at)}: returned {str(val)[:200]}')
        elif not killed:
            ctx.require(err is None, 'raised', lambda: f'{type(err).__name__}: {str(err)[-300:]}')
        if err is None:
            ctx.evals += 1
            ctx.require(isinstance(val, list) and same(val, want), 'wrong-results', lambda: f'{str(val)[:300]} instead of {str(want)[:300]}')
        else:
            ctx.probe('raised')
        stuck = [q.q for q in w.queues if not q.cancelled and sum(len(x) for x in q.items) + sum(len(x or b'') for x in q.out.get(None, [])) > 65536 and q.q in {q2.q for q2 in w.queues if None in q2.out}]
        ctx.require(not stuck, 'exit-hang', lambda: f'queue {stuck} still holds more than a pipe takes: the interpreter waits for it when it exits')
        if n > 1 and ncpu > 1:
            ctx.nontrivial += 1
    finally:
        w.end()
        mproc.WORLD = None


def run(ch, ctx):
    def main():
        for k in range(ch.between(1, 3)):
            call(ch, ctx, k, ch.chance(0.3))
    ctx.sim(main, mode=ch.pick(['none', 'rare', 'dense'], 's'))
