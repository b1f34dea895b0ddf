"""C19 saved orientation-search results are read back whole or refused."""
import errno
import os
import shutil
from types import SimpleNamespace as NS

import numpy as np

from . import common as C
from . import instr as I
from .c13 import Maps
from sim import core, disk

TECHNIQUE = 'seeded crash points and disk faults at any file operation of a save or load, checked by reading back in a fresh process'
QUICK, THOROUGH = 900, 60000
RULE = ('Each run saves eta-omega maps or scored orientations (new file or over an older one) in a forked process on the fault-injecting disk, first cleanly to count its file operations, then 1-3 times with one '
        'seeded fault (kill before or inside operation k, operation k failing once or for good, short or interrupted writes), reads what is left in a fresh process, and saves again; reading is also failed at any operation and repeated.')
REAL = ['EtaOmeMaps (load and save_eta_ome_maps), GenerateEtaOmeMaps.save, write_scored_orientations', 'numpy zip writer and reader on real files', 'process kill by _exit inside the failing system call']
STUB = ['file-system calls below the scratch directory pass the LD_PRELOAD fault seam', 'the maps object that is saved (plain attributes) and the config object']
ASSUME = ['a kill keeps every completed write and possibly a prefix of the one in progress (no power loss: the library does not claim fsync durability)', 'the width of the plane data is not part of the archive']


def setup():
    global EtaOmeMaps, Generate, fo, PDS
    C.set_cpus(2)
    Material, _, _ = I.load()
    from hexrd.hedm import findorientations as fo
    from hexrd.hedm.xrdutil import utils, EtaOmeMaps
    from hexrd.hedm.instrument import GenerateEtaOmeMaps as Generate
    core.watch([utils.__file__])
    PDS = [I.plane_data(Material, n, energy=e) for n, e in ((2, 65.), (4, 50.), (5, 80.), (1, 30.))]
    PDS[1].exclusions = np.arange(len(PDS[1].exclusions)) % 2 == 1
    PDS[2].tThMax = np.radians(9.)


def facts(m):
    """everything the archive stands for"""
    pd = m.planeData
    out = {k: np.array(getattr(m, k)) for k in ('dataStore', 'iHKLList', 'etaEdges', 'omeEdges', 'etas', 'omegas')}
    out['lattice'] = np.array(pd.lparms, float)
    out['wavelength'] = np.array(float(pd.wavelength))
    out['laue'] = np.array(str(pd.laueGroup))
    out['exclusions'] = np.array(pd.exclusions)
    out['hkls'] = np.vstack([i['hkl'] for i in pd.hklDataList]).T
    out['tth'] = np.array([i['tTheta'] for i in pd.hklDataList])
    out['strain'] = np.array(pd.strainMag is None or pd.strainMag)
    return out


def run(ch, ctx):
    r = np.random.default_rng(ch.bits())
    what = ch.pick(['maps', 'scored', 'maps-generated'])
    name = os.path.join(ctx.tmp, ch.pick(['out.npz', 'a b.maps.npz']))

    def make():
        if what == 'scored':
            n = ch.pick([7, 1, 0, 300])
            return {'test_quaternions': r.standard_normal((4, n)), 'score': r.random(n)}
        pd = ch.pick(PDS)
        ids = [int(i) for i in r.permutation(np.flatnonzero(~np.asarray(pd.exclusions)))[:ch.between(1, 3)]]
        m = Maps(r, pd, ids, ch.pick([6, 20, 1]), ch.pick([5, 40, 2]), ch.chance(0.3), -60., 120.)
        if ch.chance(0.3):
            m.dataStore = m.dataStore.astype(np.float32)
        return m

    data = make()
    odata = make() if ch.chance(0.5) else None
    ctx.say(what, 'over an older file' if odata is not None else 'new file')

    def save(d):
        if what == 'scored':
            fo.write_scored_orientations({'scored_orientations': d}, NS(find_orientations=NS(orientation_maps=NS(scored_orientations_file=name))))
        elif what == 'maps':
            EtaOmeMaps.save_eta_ome_maps(d, name)
        else:
            Generate.save(d, name)

    def load():
        if what == 'scored':
            with np.load(name) as a:
                return {k: a[k] for k in a}
        return facts(EtaOmeMaps(name))

    def wanted(d):
        return d if what == 'scored' else facts(d)

    def differs(got, d):
        want = wanted(d)
        if sorted(got) != sorted(want):
            return f'{sorted(got)} instead of {sorted(want)}'
        for k in want:
            if not C.same(np.array(got[k]), np.array(want[k])):
                return f'{k}: {C.describe_diff(np.array(got[k]), np.array(want[k]))}'

    def compare(o, sig, why, ok=None):
        ctx.require(o.kind == 'ok', sig, f'{why}: reading fails: {o}')
        d = differs(o.value, data)
        ctx.require(not d, sig, f'{why}: {d}')

    def clean():
        if os.path.exists(name):
            os.remove(name)
        if odata is not None:
            shutil.copy('older', name)

    if odata is not None:
        o = disk.node(lambda: save(odata))
        ctx.require(o.kind == 'ok', 'save-failed', f'clean save: {o}')
        os.rename(name, 'older')
    clean()
    o = disk.node(lambda: save(data), cls=disk.MUT)
    ctx.require(o.kind == 'ok', 'save-failed', f'clean save: {o}')
    nmut = o.ops
    compare(disk.node(load), 'clean-save', 'clean save')
    ctx.evals += 1
    for _ in range(ch.between(1, 3)):
        clean()
        kind = ch.pick(['crash', 'torn', 'sticky', 'once', 'short', 'eintr'], 'f', [5, 4, 4, 4, 1, 1])
        k = 1 + ch.below(nmut, 'f')
        err = ch.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT], 'f')
        act = {'crash': disk.CRASH, 'torn': disk.TORN, 'sticky': disk.STICKY, 'once': disk.FAIL, 'short': disk.SHORT, 'eintr': disk.INTR}[kind]
        cls = disk.WRITE if kind in ('short', 'eintr') else disk.MUT
        again = ch.chance(0.5, 'f')
        ctx.say('fault', kind, 'at', k, 'of', nmut)

        def attempt():
            try:
                save(data)
                return 'acked', None
            except Exception as e:
                disk.on(False)
                why = repr(e)[:200]
                e = None
                if again:
                    disk.unplan()
                    save(data)
                return 'failed', why
        o = disk.node(attempt, [(cls, k, act, err)])
        for nm, c in o.fired.items():
            ctx.fault(nm, c)
        ctx.nontrivial = True
        ctx.evals += 1
        if o.kind == 'died':
            ctx.require(o.code == 77 and kind in ('crash', 'torn'), 'save-died', f'{kind}: the saving process died with code {o.code}')
            v = disk.node(load)
            ctx.probe('killed')
            if v.kind == 'ok':
                if odata is not None and not differs(v.value, odata):
                    ctx.probe('older-file-intact')
                else:
                    d = differs(v.value, data)
                    ctx.require(not d, 'interrupted-save-lies', f'a save killed at operation {k} of {nmut} left a file that reads: {d}')
                    ctx.probe('killed-but-readable')
            else:
                ctx.require(v.kind == 'raised', 'reader', f'reading what a kill left: {v}')
        else:
            ctx.require(o.kind == 'ok', 'retry-failed', f'{kind}: {o}')
            if o.value[0] == 'acked':
                ctx.require(not (o.fired and kind == 'sticky'), 'silent-failure', f'{what}: operation {k} of {nmut} failed ({kind}, {errno.errorcode[err]}) and the save returned normally')
                compare(disk.node(load), 'acked-wrong', f'{kind} at {k}')
            else:
                ctx.require(o.fired and kind in ('sticky', 'once', 'short'), 'save-failed', f'{kind}: save failed: {o.value[1]}')
                ctx.probe('raised')
                if again:
                    compare(disk.node(load), 'retry-wrong', 'saved again after an error')
        if o.kind == 'died' or not again:
            s = disk.node(lambda: save(data))
            ctx.require(s.kind == 'ok', 'retry-failed', f'saving again: {s}')
            compare(disk.node(load), 'retry-wrong', 'saved again')

    # failing reads
    o = disk.node(load, cls=disk.RD)
    nrd = o.ops
    for _ in range(ch.between(0, 2)):
        k = 1 + ch.below(nrd, 'f')
        act = ch.pick([disk.FAIL, disk.EOF, disk.STICKY, disk.SHORT, disk.INTR], 'f')
        ctx.say('read fault', disk.ACT[act], 'at', k, 'of', nrd)

        def reading():
            try:
                got = load()
            except Exception as e:
                got = None
                why = repr(e)[:200]
                e = None
            else:
                why = None
            disk.on(False)
            disk.unplan()
            return got, why, load()
        o = disk.node(reading, [(disk.RD, k, act, errno.EIO)])
        for nm, c in o.fired.items():
            ctx.fault('read-' + nm, c)
        ctx.require(o.kind == 'ok', 'reload-failed', f'a later load failed: {o}')
        got, why, later = o.value
        if got is not None:
            d = differs(got, data)
            ctx.require(not d, 'read-error-lies', f'{disk.ACT[act]} at read operation {k} of {nrd}: loaded {d}')
            ctx.require(not (o.fired and act == disk.STICKY), 'read-error-lost', f'reading failed for good at {k} of {nrd} and the load returned')
        else:
            ctx.require(o.fired and act not in (disk.SHORT, disk.INTR), 'load-failed', f'{disk.ACT[act]}: {why}')
            ctx.probe('load-raised')
        ctx.require(not differs(later, data), 'reload-wrong', 'a later load differs')
