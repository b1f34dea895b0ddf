"""Seeded search: forks one process per simulated run, collects results,
minimises failures, writes replay files and evidence."""
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import selectors
import shutil
import signal
import struct
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path[:] = [p for p in sys.path if os.path.realpath(p) != os.path.join(HERE, 'sim')]
from sim import core                                   # noqa: E402
core.install()
from sim import procs                                  # noqa: E402
from sim import disk                                   # noqa: E402
from sim.choices import Choices, STREAMS               # noqa: E402
from sim.core import SimViolation, HarnessError        # noqa: E402

procs.install()
REPO = os.environ['VERIF_REPO']
BASE = os.environ['VERIF_BASE']
_now = core._real_time['monotonic']


class Ctx:
    """what a check's run() gets"""

    def __init__(self, ch, tier, tmp):
        self.ch = ch
        self.tier = tier
        self.tmp = tmp
        self.faults = {}
        self.probes = {}
        self.sample = []
        self.digest = hashlib.sha256()
        self.sims = []
        self.evals = 0
        self.nontrivial = False
        self._send = None

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def say(self, *what):
        s = ' '.join(str(w) for w in what)
        self.digest.update(s.encode())
        self.sample.append(s)

    def fail(self, sig, msg=''):
        raise SimViolation(sig, str(msg))

    def require(self, cond, sig, msg=''):
        if not cond:
            raise SimViolation(sig, msg() if callable(msg) else str(msg))

    def sim(self, fn, *a, mode=None, max_steps=3_000_000, policy=None):
        """run fn under the thread scheduler"""
        s = core.Sim(self.ch, mode=mode, max_steps=max_steps)
        s.keep_log = self.keep_log
        s.fatal = self._fatal
        procs.POLICY = policy or procs.Policy(self.ch)
        self.sims.append(s)
        try:
            return s.run(fn, *a)
        finally:
            for k, v in procs.POLICY.counts.items():
                if v:
                    self.fault(k, v)
            procs.reap()

    keep_log = False

    def _fatal(self, sig, msg):
        self._send('violation', sig, msg)
        os._exit(0)

    def out(self, status, sig='', msg=''):
        t = hashlib.sha256()
        for s in self.sims:
            t.update(s.trace.digest())
            for k, v in s.probes.items():
                self.probe(k, v)
        return dict(
            status=status, sig=sig, msg=msg, rec=self.ch.rec,
            trace=t.hexdigest(), digest=self.digest.hexdigest(),
            switches=sum(s.switches for s in self.sims), preempt=sum(s.preemptions for s in self.sims),
            steps=sum(s.steps for s in self.sims), simtime=sum(s.now for s in self.sims),
            faults=self.faults, probes=self.probes, sample=self.sample[:40], nontrivial=self.nontrivial,
            evals=self.evals, log=[x for s in self.sims for x in s.log][:20000] if self.keep_log else [])


def classify(e):
    """(status, sig, msg) for an exception out of a run"""
    if isinstance(e, SimViolation):
        return 'violation', e.sig, e.msg
    tb = ''.join(traceback.format_exception(e))[-3000:]
    if isinstance(e, HarnessError):
        return 'harness', 'harness', tb
    if isinstance(e, (MemoryError, KeyboardInterrupt)):
        return 'harness', type(e).__name__, tb
    frames = traceback.extract_tb(e.__traceback__)
    hex = [f for f in frames if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
    if not hex and frames and isinstance(e, (AttributeError, NameError, ImportError)) and \
            os.path.realpath(frames[-1].filename).startswith(HERE):
        return 'harness', type(e).__name__, tb
    where = hex[-1].name if hex else (frames[-1].name if frames else '?')
    return 'violation', f'unexpected-{type(e).__name__}', f'{where}: {e}\n{tb}'


class Runner:
    def __init__(self, check, tier, jobs):
        self.check = check
        self.tier = tier
        self.jobs = jobs
        self.n = 0
        self.timeout = getattr(check, 'RUN_TIMEOUT', 120 if tier == 'quick' else 240)

    def _child(self, w, ch, slot, keep_log):
        tmp = os.path.join(BASE, f'run{slot:06d}')
        done = False
        ctx = None

        def send(status, sig='', msg=''):
            nonlocal done
            if done:
                return
            done = True
            b = pickle.dumps(ctx.out(status, sig, msg))
            b = struct.pack('<Q', len(b)) + b
            while b:
                k = os.write(w, b)
                b = b[k:]
        try:
            os.setpgid(0, 0)
            os.mkdir(tmp)
            os.chdir(tmp)
            if not os.environ.get('VERIF_DEBUG'):
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            ctx = Ctx(ch, self.tier, tmp)
            ctx.keep_log = keep_log
            ctx._send = send
            import numpy as np
            if os.environ.get('VERIF_DEBUG'):
                faulthandler.dump_traceback_later(20)
            np.random.seed(12345)
            random.seed(12345)
            disk.root(tmp)
            try:
                self.check.run(ch, ctx)
                st = ('ok', '', '')
            except BaseException as e:
                disk.on(False)
                st = classify(e)
            send(*st)
        except BaseException:
            try:
                send('harness', 'engine', traceback.format_exc())
            except BaseException:
                traceback.print_exc()
        finally:
            os._exit(0)

    def start(self, ch, keep_log=False):
        self.n += 1
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self._child(w, ch, self.n, keep_log)
        os.close(w)
        return dict(pid=pid, fd=r, data=bytearray(), t0=_now(), ch=ch, slot=self.n)

    def _finish(self, j, timed_out):
        os.close(j['fd'])
        try:
            os.killpg(j['pid'], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(j['pid'], signal.SIGKILL) if timed_out else None
            except ProcessLookupError:
                pass
        _, st = os.waitpid(j['pid'], 0)
        shutil.rmtree(os.path.join(BASE, f'run{j["slot"]:06d}'), ignore_errors=True)
        d = bytes(j['data'])
        if len(d) >= 8 and len(d) >= 8 + struct.unpack('<Q', d[:8])[0]:
            res = pickle.loads(d[8:])
        else:
            code = os.waitstatus_to_exitcode(st)
            res = dict(status='hang' if timed_out else 'died', sig='', msg=f'exit code {code}', rec=j['ch'].rec, trace='', digest='',
                       switches=0, preempt=0, steps=0, simtime=0, faults={}, probes={}, sample=[], nontrivial=False, evals=0, log=[])
            if timed_out:
                res['sig'] = 'hang'
        res['wall'] = _now() - j['t0']
        return res

    def map(self, tasks, stop=None, keep_log=False):
        """tasks: iterable of (key, Choices); yields (key, result) as they end"""
        it = iter(tasks)
        live = {}
        sel = selectors.DefaultSelector()
        more = True
        try:
            while True:
                while more and len(live) < self.jobs and not (stop and stop()):
                    try:
                        key, ch = next(it)
                    except StopIteration:
                        more = False
                        break
                    j = self.start(ch, keep_log)
                    j['key'] = key
                    live[j['fd']] = j
                    sel.register(j['fd'], selectors.EVENT_READ)
                if stop and stop():
                    more = False
                if not live:
                    break
                for k, _ in sel.select(0.5):
                    j = live[k.fd]
                    b = os.read(k.fd, 1 << 20)
                    j['data'] += b
                    full = len(j['data']) >= 8 and len(j['data']) >= 8 + struct.unpack('<Q', j['data'][:8])[0]
                    if not b or full:
                        sel.unregister(k.fd)
                        del live[k.fd]
                        yield j['key'], self._finish(j, False)
                t = _now()
                for fd, j in list(live.items()):
                    if t - j['t0'] > self.timeout:
                        sel.unregister(fd)
                        del live[fd]
                        yield j['key'], self._finish(j, True)
        finally:
            for fd, j in live.items():
                self._finish(j, True)
            sel.close()

    def one(self, ch, keep_log=False):
        for _, r in self.map([(0, ch)], keep_log=keep_log):
            return r


def settle(runner, mk, res):
    """confirm hangs and deaths by repeating the run alone"""
    if res['status'] not in ('hang', 'died'):
        return res
    again = runner.one(mk())
    if again['status'] == res['status'] and (res['status'] == 'hang' or (again['msg'] == res['msg'] and '-9' not in res['msg'])):
        again['sig'] = 'hang' if res['status'] == 'hang' else 'process-died'
        again['msg'] = 'the run never returned' if res['status'] == 'hang' else f'the simulated process died: {res["msg"]}'
        again['status'] = 'violation'
        return again
    if again['status'] in ('hang', 'died'):
        again['status'] = 'harness'
    return again


def minimise(runner, rec, sig, budget):
    end = _now() + budget
    tries = 0
    best = {k: list(rec[k]) for k in STREAMS}

    def batch(cands):
        """first candidate (in order) that still fails the same way"""
        nonlocal tries
        cands = [c for c in cands if c != best]
        for lo in range(0, len(cands), runner.jobs):
            part = cands[lo:lo + runner.jobs]
            got = {}
            for i, r in runner.map([(i, Choices(replay=c)) for i, c in enumerate(part)]):
                tries += 1
                got[i] = r
            for i in range(len(part)):
                if got[i]['status'] == 'violation' and got[i]['sig'] == sig:
                    return {k: list(got[i]['rec'][k]) for k in STREAMS}
            if _now() > end:
                return None
        return None

    def strip(r):
        for k in STREAMS:
            while r[k] and r[k][-1] == 0:
                r[k].pop()
        return r

    strip(best)
    changed = True
    while changed and _now() < end:
        changed = False
        # whole streams away
        for k in ('s', 'f', 'w'):
            if best[k]:
                r = batch([{**best, k: []}])
                if r:
                    best = strip(r)
                    changed = True
        for k in ('s', 'f', 'w'):
            size = max(1, len(best[k]) // 2)
            while size >= 1 and _now() < end:
                lo = 0
                progressed = False
                cands = []
                for lo in range(0, len(best[k]), size):
                    a, b, c = best[k][:lo], best[k][lo:lo + size], best[k][lo + size:]
                    if any(b):
                        cands.append({**best, k: a + [0] * len(b) + c})
                    if k != 'w' or size <= 8:
                        cands.append({**best, k: a + c})
                cands = cands[:64]
                r = batch(cands)
                if r and cost(strip(r)) < cost(best):
                    best = r
                    changed = progressed = True
                if not progressed:
                    size //= 2
            cands = []
            for i, v in enumerate(best[k][:64]):
                for nv in (v // 2, v - 1):
                    if v > 1 and nv > 0:
                        cands.append({**best, k: best[k][:i] + [nv] + best[k][i + 1:]})
            r = batch(cands[:48]) if _now() < end else None
            if r and cost(strip(r)) < cost(best):
                best = r
                changed = True
    return best, tries


def cost(r):
    return (sum(1 for k in STREAMS for v in r[k] if v), sum(len(r[k]) for k in STREAMS), sum(v for k in STREAMS for v in r[k]))


def load_known():
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = {}
                for tok in line[len('finding:'):].split(' ', 2 + 1):
                    if '=' in tok:
                        k, v = tok.split('=', 1)
                        d[k] = v
                d['text'] = line
                out.append(d)
    return out


def main():
    args = sys.argv[1:]
    cid = args[0]

    def opt(name, d=None):
        return args[args.index(name) + 1] if name in args else d
    tier = opt('--tier', os.environ.get('VERIF_TIER') or 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    vseed = int(opt('--seed', os.environ.get('VERIF_SEED') or '1'))
    jobs = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
    t0 = _now()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    warnings.simplefilter('ignore')
    faulthandler.enable()
    check = importlib.import_module('checks.' + cid.lower())
    t_imp = _now()
    check.setup()
    core.find_phil()
    import numpy as np
    np.seterr(all='ignore')
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if getattr(m, '__name__', '') == 'hexrd' and f and not os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep):
            print(f'ERROR: hexrd comes from {f}, not {REPO}')
            return 3
    gc.collect()
    gc.freeze()
    gc.disable()
    t_setup = _now() - t0
    try:
        # children share the cache directory; concurrent additions to one
        # index can attach the wrong machine code to a signature
        import numba.core.caching as _nc
        _nc._Cache.save_overload = _nc.Cache.save_overload = _nc.NullCache.save_overload = lambda self, sig, data: None
    except ImportError:
        pass
    runner = Runner(check, tier, jobs)

    if '--det' in args:
        # compare the logs of repeated runs of some seeds
        n = int(opt('--det'))
        got = {}
        bad = 0
        for rnd in range(2):
            for i, r in runner.map(((i, Choices(seed=i, label=f'{cid}/{vseed}')) for i in range(n)), keep_log=True):
                if rnd == 0:
                    got[i] = r
                    continue
                a = got[i]
                if (a['trace'], a['digest'], a['status']) != (r['trace'], r['digest'], r['status']):
                    bad += 1
                    if bad <= 3:
                        print('seed', i, a['status'], r['status'], a['sig'], r['sig'], len(a['log']), len(r['log']))
                        for k, (x, y) in enumerate(zip(a['log'], r['log'])):
                            if x != y:
                                print('   log', k, a['log'][max(0, k - 3):k], '\n   ', x, '\n   ', y)
                                break
                        for x, y in zip(a['sample'], r['sample']):
                            if x != y:
                                print('   ev', x, '|', y)
                                break
        print('all', hashlib.sha256(''.join(got[i]['trace'] + got[i]['digest'] for i in range(n)).encode()).hexdigest()[:16])
        print('determinism: seeds', n, 'mismatches', bad)
        return 3 if bad else 0

    if '--only' in args:
        i = int(opt('--only'))
        r = runner.one(Choices(seed=i, label=f'{cid}/{vseed}'), keep_log=True)
        for x in r['sample']:
            print('  ', x)
        print(r['status'], r['sig'], r['msg'])
        return 0

    if '--replay' in args:
        d = json.load(open(opt('--replay')))

        def mkr():
            # a run that never ended left no list of choices: its seed stands for it
            return Choices(seed=d['seed'], label=d['label']) if d['choices'] is None else Choices(replay=d['choices'])
        r = runner.one(mkr(), keep_log=True)
        r = settle(runner, mkr, r)
        for s in r['sample']:
            print('  ', s)
        if '--verbose' in args:
            for s in r['log']:
                print('    ', s)
        print('status', r['status'], r['sig'], 'trace', r['trace'][:16], 'recorded', d.get('trace', '')[:16])
        print(r['msg'][:3000])
        if r['status'] == 'violation':
            same = r['sig'] == d.get('sig') and r['trace'] == d.get('trace') and r['digest'] == d.get('digest')
            print('reproduced exactly' if same else 'reproduced differently')
            print(f'VIOLATION property={cid} replay={opt("--replay")}')
            return 1
        return 0 if r['status'] == 'ok' else 3

    nseeds = int(opt('--seeds', check.QUICK if tier == 'quick' else check.THOROUGH))
    wall_cap = float(opt('--wall', getattr(check, 'WALL', 100) if tier == 'quick' else getattr(check, 'WALL_THOROUGH', 3000)))
    known = [k for k in load_known() if k.get('property') == cid]
    known_hit = {}
    runs = []
    viol = []
    harness = []
    deadline = _now() + wall_cap
    label = f'{cid}/{vseed}'

    def mk(i):
        return Choices(seed=i, label=label)

    def stop():
        return bool(viol) or _now() > deadline or len(harness) > 5

    agg = dict(switches=0, preempt=0, steps=0, simtime=0.0, evals=0)
    faults, probes, traces = {}, {}, set()
    nontriv = set()
    samples = []
    digests = {}
    tr0 = _now()
    hist = {}
    for i, r in runner.map(((i, mk(i)) for i in range(nseeds)), stop):
        r = settle(runner, lambda: mk(i), r)
        if r['status'] in ('hang', 'died', 'harness'):
            harness.append((i, r))
            continue
        if r['status'] == 'violation':
            k = next((k for k in known if k.get('sig') == r['sig']), None)
            if k:
                known_hit[k['sig']] = k
            else:
                viol.append((i, r))
        for k in agg:
            agg[k] += r[k]
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        h = r['trace'] + r['digest']
        traces.add(h)
        if r['nontrivial'] or r['switches'] or r['faults']:
            nontriv.add(h)
        digests[i] = (r['trace'], r['digest'], r['status'])
        runs.append(r['wall'])
        if len(samples) < 3 and r['sample']:
            samples.append({'seed': i, 'events': r['sample'][:12], 'thread_switches': r['switches'], 'faults': r['faults'], 'choices_used': {k: len(v) for k, v in r['rec'].items()}})
    search_wall = _now() - tr0

    # determinism: some of the same seeds again
    mism = 0
    again = 0
    if not viol and digests:
        idx = sorted(digests)[:: max(1, len(digests) // (8 if tier == 'quick' else 200))]
        for i, r in runner.map(((i, mk(i)) for i in idx), lambda: _now() > deadline + 60):
            if r['status'] in ('hang', 'died', 'harness'):
                continue
            again += 1
            if (r['trace'], r['digest'], r['status']) != digests[i]:
                mism += 1
                print(f'NOTE: seed {i} did not repeat exactly')
    rc = 0
    replay_path = None
    minim = None
    if viol:
        i, r = min(viol, key=lambda x: (x[1]['status'], x[0]))
        rec = r['rec']
        sig = r['sig']
        print(f'seed {i}: {sig}: {r["msg"][:2000]}')
        best = rec
        tries = 0
        lost = sig in ('hang', 'process-died')

        def remake():
            return mk(i) if lost else Choices(replay=best)
        if r['wall'] < 30 and sig not in ('hang', 'process-died'):
            chk = runner.one(Choices(replay=rec))
            if chk['status'] == 'violation' and chk['sig'] == sig:
                best, tries = minimise(runner, rec, sig, 25 if tier == 'quick' else 300)
        fin = r if lost else runner.one(remake(), keep_log=True)
        if not lost and not (fin['status'] == 'violation' and fin['sig'] == sig):
            best = rec
            fin = runner.one(remake(), keep_log=True)
        if fin['status'] in ('hang', 'died'):
            fin = settle(runner, remake, fin)
        fin2 = fin if lost else runner.one(remake())
        exact = (fin2['trace'], fin2['digest'], fin2['sig']) == (fin['trace'], fin['digest'], fin['sig'])
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        replay_path = os.path.join(HERE, 'out', f'{cid}-{vseed}-{i}.json')
        with open(replay_path, 'w') as f:
            json.dump(dict(property=cid, seed=i, label=label, verif_seed=vseed, sig=sig, msg=fin['msg'] or r['msg'], choices=None if lost else best,
                           original_sizes={k: len(rec[k]) for k in STREAMS}, trace=fin['trace'], digest=fin['digest'],
                           events=fin['sample'], schedule=fin['log'][-400:], faults=fin['faults'], exact=exact,
                           how=f'python3 /verif/run.py {cid} --replay {replay_path}'), f, indent=1)
        for s in fin['sample']:
            print('   ', s)
        print(f'{fin["sig"]}: {fin["msg"][:2500]}')
        minim = dict(tries=tries, choices_before={k: len(rec[k]) for k in STREAMS}, choices_after={k: len(best[k]) for k in STREAMS}, replay_exact=exact)
        print(f'minimised {minim}')
        print(f'VIOLATION property={cid} replay={replay_path}')
        rc = 1
    elif harness:
        for i, r in harness[:3]:
            print(f'ERROR: seed {i}: {r["status"]} {r["sig"]} {r["msg"]}')
        rc = 3
    for k in known_hit.values():
        print(f'KNOWN-FINDING: property={cid} {k["text"]}')
    wall = _now() - t0
    ev = dict(
        property=cid, tier=tier, seed=vseed, level=getattr(check, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=len(runs) + 0, distinct_nontrivial=len(nontriv),
            rule=check.RULE + ' One evaluation is one simulated run (one seed); a run is non-trivial if a thread switch, worker completion choice, fault or other simulated event happened in it, and distinct by the hash of its complete event and schedule trace.',
            samples=samples or [{'note': 'no run finished'}],
            checks_inside_runs=agg['evals'],
            seeds_planned=nseeds, runs_per_hour=round(len(runs) / max(search_wall, 1e-3) * 3600),
            search_wall_s=round(search_wall, 2), setup_wall_s=round(t_setup, 2),
            simulated_time_s=round(agg['simtime'], 3), scheduler_steps=agg['steps'], thread_switches=agg['switches'], preemptions=agg['preempt'],
            faults_injected=faults, rare_conditions_hit=probes,
            distinct_traces=len(traces), trace_measure='sha256 over every scheduling decision (from, to, place), worker batch start/finish, disk operation sequence and outcome',
            determinism_recheck=dict(runs=again, mismatches=mism),
            real_components=check.REAL, stubbed_components=check.STUB,
            minimisation=minim, harness_errors=len(harness), known_findings_seen=sorted(known_hit)),
        assumptions=getattr(check, 'ASSUME', []),
        wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', f'{cid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{cid} {tier}: {len(runs)} runs, {len(traces)} distinct traces, {agg["switches"]} switches, faults {faults}, probes {probes}, setup {t_setup:.1f}s, search {search_wall:.1f}s, mismatches {mism}/{again}')
    return rc


if __name__ == '__main__':
    rc = 3
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
