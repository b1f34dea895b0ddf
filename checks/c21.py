"""C21 instrument configurations survive saving and report failed saves."""
import copy
import errno
import os

import numpy as np

from . import common as C
from . import instr as I
from sim import core, disk

TECHNIQUE = 'seeded histories of changes, writes and loads with disk faults at any file operation, and writes from several threads, against the settings held in memory'
QUICK, THOROUGH = 1100, 80000
RULE = ('Each run makes an instrument (1-3 planar or cylindrical panels; distortion, region, group and all kinds of buffer; one or more beams) and puts it through 1-5 steps: change settings, write as YAML or HDF5 (path, open file, over older files, from '
        'two threads), load through the constructor or the config layer and go on with what was loaded; writes meet seeded disk faults (error once or for good, short or interrupted write) and are then repeated.')
REAL = ['HEDMInstrument (constructor and write_config), detector config_dict, core.utils.hdf5, core.utils.yaml, config.instrument.Instrument', 'PyYAML and h5py/HDF5 on real files']
STUB = ['file-system calls below the scratch directory pass the LD_PRELOAD fault seam', 'thread scheduler']
ASSUME = ['a two-dimensional buffer written as YAML becomes a zero buffer by design', 'the name of an only beam, filters, coatings and phosphors are not part of the file', 'when the target is an open HDF5 file, its owner closes it and sees what closing reports',
          'HDF5 2.0 itself can crash the process after a write error (counted, not judged) and swallows a momentary error while closing an object, so for HDF5 only errors that persist are judged']


def setup():
    global HI, h5py, yaml, CI, get_mapping
    import h5py
    import yaml
    _, HI, _ = I.load()
    from hexrd.core.config import instrument as CI
    from hexrd.core.distortion import get_mapping
    from hexrd.core.instrument import hedm_instrument, detector
    from hexrd.core.utils import hdf5, yaml as hy
    core.watch([hedm_instrument.__file__, detector.__file__, hdf5.__file__, hy.__file__])


def facts(ins):
    """everything the file stands for"""
    d = {'chi': float(ins.chi), 'tvec': np.array(ins.tvec, float), 'id': str(ins.id), 'active': copy.deepcopy(beam(ins.active_beam)),
         'beams': {k: beam(b) for k, b in ins.beam_dict.items()}}
    if len(d['beams']) == 1:
        d['beams'] = {'only': next(iter(d['beams'].values()))}
    d['panels'] = {k: {
        'type': p.detector_type, 'rows': int(p.rows), 'cols': int(p.cols), 'size': np.array([p.pixel_size_row, p.pixel_size_col], float), 'tvec': np.array(p.tvec, float), 'tilt': np.array(p.tilt, float),
        'roi': None if p.roi is None else np.array(p.roi, float), 'group': p.group, 'saturation': float(p.saturation_level), 'radius': float(p.radius) if p.detector_type != 'planar' else None,
        'distortion': None if p.distortion is None else (p.distortion.maptype, np.array(p.distortion.params, float)), 'bvec': np.array(p.bvec), 'xrs': float(p.xrs_dist),
        'buffer': p.panel_buffer if p.panel_buffer is None or isinstance(p.panel_buffer, str) else np.array(p.panel_buffer)} for k, p in ins.detectors.items()}
    return d


def beam(b):
    e = b['energy_correction']
    return {'energy': float(b['energy']), 'vector': np.array(b['vector'], float), 'distance': float(b['distance']),
            'correction': None if e is None else {k: (str(v) if k == 'axis' else float(v)) for k, v in e.items()}}


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{path}: {sorted(a)} instead of {sorted(b)}'
        for k in a:
            d = diff(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return next(filter(None, (diff(x, y, path) for x, y in zip(a, b))), None)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        tol = 2e-7 if path.endswith('vec') and 'tvec' not in path or path.endswith('vector') else 0      # kept as two angles
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind and 'buffer' not in path or not np.allclose(a, b, rtol=0, atol=tol, equal_nan=True):
            return f'{path}: {a} instead of {b}'
        return None
    if type(a) is not type(b) or a != b:
        return f'{path}: {a!r} instead of {b!r}'


def gen_distortion(ch, r):
    k = ch.pick(['GE_41RT', 'Dexela_2923', 'Dexela_2923_quad', 'identity'])
    n = {'GE_41RT': 6, 'Dexela_2923': 8, 'Dexela_2923_quad': 6, 'identity': 1}[k]
    if k == 'identity':
        return None
    return {'function_name': k, 'parameters': [float(x) for x in (np.abs(r.normal(2, 1e-3, n)) if k == 'GE_41RT' else r.normal(0, 1, n))]}


def gen_buffer(ch, r, shape):
    k = ch.pick(['none', 'scalar', 'pair', 'array', 'mask', 'name', 'absent'])
    return {'none': None, 'scalar': 2.5, 'pair': [1.5, 0.1], 'array': r.random(shape), 'mask': r.random(shape) > .5, 'name': 'standard', 'absent': None}[k]


def gen_beam(ch, r):
    b = {'energy': float(r.uniform(5, 90)), 'vector': {'azimuth': float(r.uniform(-180, 180)), 'polar_angle': float(ch.pick([90., r.uniform(0, 180), 0., 180.]))}}
    if ch.chance(0.3):
        b['source_distance'] = float(r.uniform(10, 1e4))
    if ch.chance(0.3):
        b['energy_correction'] = {'intercept': float(r.normal()), 'slope': float(r.normal()), 'axis': ch.pick(['x', 'y'])}
    return b


def gen_config(ch, r):
    panels = {}
    for name in ch.pick([['a'], ['ge1', 'ge2'], ['no', '1', 'x y'], ['z', 'b', 'a']]):
        shape = ch.pick([(10, 12), (7, 7), (1, 5)])
        roi = [ch.below(9), ch.below(9)] if ch.chance(0.3) else None
        c = I.panel_config(r, *shape, center=r.normal(0, 50, 2), dist=float(r.uniform(100, 900)), size=float(ch.pick([.2, 1., r.random() + .1])), tilt=3., kind=ch.pick(['planar', 'cylindrical'], 'w', [3, 1]), distortion=gen_distortion(ch, r) if ch.chance(0.4) else None,
                           roi=roi, group=ch.pick(['g', 'left']) if roi is not None or ch.chance(0.3) else None, buffer=gen_buffer(ch, r, shape), radius=float(r.uniform(20, 90)))
        c['saturation_level'] = ch.pick([16000., 1.5, 65535.])
        c['pixels']['size'] = [c['pixels']['size'][0], float(ch.pick([c['pixels']['size'][0], 0.37]))]
        panels[name] = c
    beams = gen_beam(ch, r) if ch.chance(0.5) else {n: gen_beam(ch, r) for n in ch.pick([['XRS1', 'XRS2'], ['b', 'a'], ['only'], ['p', 'q', 'r']])}
    return I.instrument_config(panels, chi=float(r.normal(0, .1)), tvec=[float(x) for x in r.normal(0, 1, 3)], beams=beams)


def mutate(ch, r, ins):
    """change some settings of an instrument"""
    p = ch.pick(list(ins.detectors.values()))
    k = ch.pick(['chi', 'tvec', 'energy', 'vector', 'distance', 'panel-tvec', 'tilt', 'buffer', 'distortion', 'saturation', 'correction', 'group', 'eta', 'pixels'])
    if k == 'chi':
        ins.chi = r.normal(0, .2)
    elif k == 'tvec':
        ins.tvec = r.normal(0, 2, 3)
    elif k == 'energy':
        ins.beam_energy = r.uniform(10, 80)
    elif k == 'vector':
        ins.beam_vector = [float(r.uniform(-180, 180)), float(r.uniform(5, 175))]
    elif k == 'distance':
        ins.source_distance = ch.pick([np.inf, 250.])
    elif k == 'panel-tvec':
        p.tvec = r.normal(0, 100, 3)
    elif k == 'tilt':
        p.tilt = r.normal(0, 1, 3)
    elif k == 'buffer':
        b = gen_buffer(ch, r, p.shape)
        p.panel_buffer = np.array(b) * np.ones(2) if np.isscalar(b) and not isinstance(b, str) else np.array(b) if isinstance(b, list) else b
    elif k == 'distortion':
        d = gen_distortion(ch, r)
        p.distortion = None if d is None else get_mapping(d['function_name'], d['parameters'])
    elif k == 'saturation':
        p.saturation_level = float(r.uniform(1, 9e4))
    elif k == 'correction':
        ins.energy_correction = ch.pick([None, {'intercept': 1., 'slope': -.5, 'axis': 'y'}])
    elif k == 'pixels':
        p.pixel_size_row = float(r.random() + .1)
    return k


def as_written(f, style):
    """what the file can hold"""
    f = copy.deepcopy(f)
    if style == 'yaml':
        for p in f['panels'].values():
            if isinstance(p['buffer'], np.ndarray) and p['buffer'].ndim == 2:
                p['buffer'] = np.zeros(2)
    return f


def run(ch, ctx):
    r = np.random.default_rng(ch.bits())
    cfg = gen_config(ch, r)
    ins = HI(copy.deepcopy(cfg))
    if len(ins.beam_dict) > 1 and ch.chance(0.5):
        ins.active_beam_name = ch.pick(list(ins.beam_dict))
    ctx.say(list(ins.detectors), list(ins.beam_dict), ins.active_beam_name)
    # the constructor
    f0 = facts(ins)
    for k, p in cfg['detectors'].items():
        q = f0['panels'][k]
        ok = (q['type'], q['rows'], q['cols'], q['saturation']) == (p['detector_type'], p['pixels']['rows'], p['pixels']['columns'], p['saturation_level']) and list(q['tilt']) == p['transform']['tilt'] and list(q['tvec']) == p['transform']['translation'] and list(q['size']) == p['pixels']['size']
        ctx.require(ok, 'constructor', f'{k}: {q} from {p}')

    def target(style, k):
        return os.path.join(ctx.tmp, f'{k}.' + ('yml' if style == 'yaml' else 'h5'))

    def write(ins, name, style, handle, cal=None):
        if handle:
            with h5py.File(name, 'w') as h:
                return ins.write_config(h, style='hdf5', calibration_dict=cal or {})
        return ins.write_config(name, style=style, calibration_dict=cal or {})

    def load(name, style, active, how):
        if how == 'config':
            from types import SimpleNamespace as NS
            c = CI.Instrument(NS(multiprocessing=2), name)
            new = c.hedm
            if active in new.beam_dict:
                new.active_beam_name = active
            return new
        a = active if len(ins.beam_dict) > 1 else None
        if style == 'hdf5':
            with h5py.File(name, 'r') as h:
                return HI(h, active_beam_name=a)
        with open(name) as h:
            return HI(yaml.safe_load(h), active_beam_name=a)

    for step in range(ch.between(1, 5)):
        for _ in range(ch.between(0, 2)):
            ctx.say('  change', mutate(ch, r, ins))
        style = ch.pick(['yaml', 'hdf5'])
        handle = style == 'hdf5' and ch.chance(0.3)
        name = target(style, ch.below(2))
        cal = {'name': 'ceo2', 'n': 3, 'par': [1., 2.]} if ch.chance(0.3) else None
        before = facts(ins)
        want = as_written(before, style)
        how = ch.pick(['constructor', 'config'])
        mode = ch.pick(['plain', 'fault', 'threads'], 'w', [2, 4, 1])
        ctx.say('write', style, 'handle' if handle else 'path', mode, how)
        ctx.evals += 1
        if mode == 'threads' and not handle:
            other = 'hdf5' if style == 'yaml' else 'yaml'
            n2 = target(other, 5)

            def both():
                T = C.Threads()
                T.go(lambda: ins.write_config(name, style=style, calibration_dict=cal or {}))
                T.go(lambda: ins.write_config(n2, style=other))
                T.join()
            ctx.sim(both)
            d = diff(facts(load(n2, other, ins.active_beam_name, how)), as_written(before, other))
            ctx.require(not d, 'threads', f'written by one of two threads: {d}')
            ctx.probe('two-threads')
        elif mode == 'fault':
            o = disk.node(lambda: write(ins, name, style, handle, cal) and None, cls=disk.MUT)
            ctx.require(o.kind == 'ok', 'write-failed', f'{style}: {o}')
            n = o.ops
            kind = ch.pick(['sticky', 'once', 'short', 'eintr'], 'f', [5, 3, 1, 1])
            k = 1 + ch.below(n, 'f') if ch.chance(0.7, 'f') else max(1, n - ch.below(5, 'f'))
            err = ch.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT], 'f')
            act = {'sticky': disk.STICKY, 'once': disk.FAIL, 'short': disk.SHORT, 'eintr': disk.INTR}[kind]
            cls = disk.WRITE if kind in ('short', 'eintr') else disk.MUT
            same = ch.chance(0.5, 'f') and style == 'yaml'

            def attempt():
                try:
                    write(ins, name, style, handle, cal)
                    return 'acked', None, facts(ins)
                except Exception as e:
                    disk.on(False)
                    why = repr(e)[:200]
                    e = None
                    now = facts(ins)
                    if same:
                        disk.unplan()
                        write(ins, name, style, handle, cal)
                    return 'failed', why, now
            o = disk.node(attempt, [(cls, k, act, err)])
            ctx.say('  fault', kind, 'at', k, 'of', n, o.kind)
            for nm, c in o.fired.items():
                ctx.fault(nm, c)
            ctx.nontrivial = True
            if o.kind == 'died':
                ctx.require(style == 'hdf5' and kind in ('sticky', 'once') and o.code in (-11, -7, -6), 'died', f'{style}, {kind}: the process died with code {o.code}')
                ctx.probe('hdf5-library-crash-after-write-error')
            else:
                ctx.require(o.kind == 'ok', 'rewrite-failed', f'{style}, {kind}: {o}')
                d = diff(o.value[2], before)
                ctx.require(not d, 'memory-changed', f'a {o.value[0]} write changed the instrument: {d}')
                if o.value[0] == 'failed':
                    ctx.require(o.fired and kind in ('sticky', 'once'), 'write-failed', f'{style}, {kind}: {o.value[1]}')
                    ctx.probe('raised')
                elif o.fired and kind == 'sticky':
                    ctx.fail('silent-failure', f'{style}{" to an open file" if handle else ""}: operation {k} of {n} failed for good ({errno.errorcode[err]}) and write_config returned')
                if (o.value[0] == 'acked' or same) and not (style == 'hdf5' and kind == 'once'):
                    try:
                        d = diff(facts(load(name, style, ins.active_beam_name, how)), want)
                    except Exception as e:
                        d = repr(e)[:200]
                    ctx.require(not d, 'acked-wrong', f'{style}, {kind} at {k} of {n}: {d}')
            write(ins, name, style, handle, cal)
        else:
            write(ins, name, style, handle, cal)
        disk.on(False)
        d = diff(facts(ins), before)
        ctx.require(not d, 'memory-changed', f'writing {style} changed the instrument: {d}')
        new = load(name, style, ins.active_beam_name, how)
        d = diff(facts(new), want)
        ctx.require(not d, 'loaded', f'{style}{" (open file)" if handle else ""}, {how}: {d}')
        if ch.chance(0.6):
            ins = new
            ctx.probe('cycle')
