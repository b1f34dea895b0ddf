"""small instruments and materials shared by the checks"""
import numpy as np

from . import common as C


def load():
    from hexrd.core.material import Material
    from hexrd.core.instrument.hedm_instrument import HEDMInstrument
    from hexrd.core.imageseries.omega import OmegaImageSeries
    return Material, HEDMInstrument, OmegaImageSeries


def panel_config(r, rows, cols, center=(0., 0.), dist=300., size=2., tilt=0.05, kind='planar', distortion=None, roi=None, group=None, buffer=None, radius=60.):
    d = {
        'pixels': {'rows': rows, 'columns': cols, 'size': [size, size]},
        'transform': {'translation': [float(center[0]), float(center[1]), -float(dist)], 'tilt': [float(x) for x in r.uniform(-tilt, tilt, 3)]},
        'detector_type': kind,
        'saturation_level': 16000.0,
    }
    if kind != 'planar':
        d['radius'] = radius
    if distortion:
        d['distortion'] = distortion
    if roi is not None:
        d['pixels']['roi'] = roi
    if group is not None:
        d['group'] = group
    if buffer is not None:
        d['buffer'] = buffer
    return d


def instrument_config(panels, energy=65.351, azimuth=90., polar=90., chi=0., tvec=(0., 0., 0.), beams=None):
    beam = beams or {'energy': energy, 'vector': {'azimuth': azimuth, 'polar_angle': polar}}
    return {'beam': beam, 'detectors': panels, 'oscillation_stage': {'chi': chi, 'translation': list(tvec)}, 'id': 'simulated'}


def plane_data(Material, n_active=None, energy=65.351, width=0.6):
    from hexrd.core.valunits import valWUnit
    m = Material()
    m.beamEnergy = valWUnit('e', 'energy', energy, 'keV')
    pd = m.planeData
    pd.tThWidth = np.radians(width)
    if n_active is not None:
        ex = np.ones(len(pd.exclusions), bool)
        ex[:n_active] = False
        pd.exclusions = ex
    return pd
