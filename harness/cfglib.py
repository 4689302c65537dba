"""Configurations and input files written to scratch directories, loaded with the real loader."""
import contextlib
import os
import shutil
from types import SimpleNamespace

import numpy as np
from core import scratch, sut

REQ = object()   # no default: mandatory
ANY = None
# key: (type, lowest, highest, default, example)      -- tabulated from the documented inputs
KEYS = {
    '': {'ModelName': ('str', ANY, ANY, REQ, 'a model')},
    'BoundaryConditions': {
        'RiverFlow': ('str', ANY, ANY, REQ, 'flow.csv'), 'WaveConditions': ('str', ANY, ANY, REQ, 'waves.csv'),
        'SeaLevel': ('str', ANY, ANY, REQ, 'sea.csv')},
    'InitialConditions': {
        'OutletWidth': ('float', 0, ANY, REQ, 30.0), 'OutletBed': ('float', ANY, ANY, REQ, -1.0),
        'LagoonBed': ('float', ANY, ANY, REQ, -0.5), 'BarrierElev': ('float', ANY, ANY, REQ, 4.0)},
    'Time': {
        'StartTime': ('str', ANY, ANY, REQ, '2001-02-03'), 'EndTime': ('str', ANY, ANY, REQ, '2001-02-05'),
        'HydDt': ('float', 0, ANY, REQ, 10.0), 'MorDtMin': ('float', 0, ANY, REQ, 20.0),
        'MorDtMax': ('float', 0, ANY, REQ, 2000.0)},
    'PhysicalParameters': {
        'Kcoef': ('float', 0, ANY, REQ, 0.03), 'RhoSed': ('float', 0, ANY, 2650.0, 2600.0),
        'RhoSea': ('float', 0, ANY, 1025.0, 1030.0), 'RhoRiv': ('float', 0, ANY, 1000.0, 1001.0),
        'VoidRatio': ('float', 0, 1, 0.3, 0.4), 'Gravity': ('float', 0, ANY, 9.81, 9.8),
        'GammaRatio': ('float', 0, ANY, 0.5, 0.6), 'WaveDataDepth': ('float', 0, ANY, REQ, 10.0),
        'ClosureDepth': ('float', 0, ANY, REQ, 5.0), 'BeachSlope': ('float', 0, ANY, REQ, 0.13),
        'RiverSlope': ('float', 0, 1, REQ, 0.003), 'GrainSize': ('float', 0, 1, REQ, 0.02),
        'CritShieldsStress': ('float', 0, 0.1, 0.0495, 0.05), 'MPM_coef': ('float', 0, ANY, 3.97, 8.0),
        'MPM_exp': ('float', 0, ANY, 1.5, 1.4), 'UpstreamLength': ('float', 0, ANY, REQ, 300.0),
        'RiverWidth': ('float', 0, ANY, REQ, 60.0), 'RoughnessManning': ('float', 0, 0.3, REQ, 0.04),
        'GrainRoughness': ('float', 0, 0.3, REQ, 0.035), 'WidthDepthRatio': ('float', 1, ANY, REQ, 30.0),
        'BackshoreElev': ('float', 0, ANY, REQ, 20.0), 'MaxOutletElev': ('float', ANY, ANY, REQ, -2.0),
        'OT_coef': ('float', 0, ANY, 0.0002, 0.0003), 'OT_exp': ('float', 1, ANY, 2.0, 1.5),
        'BeachTopElev': ('float', 0, ANY, REQ, 2.0), 'SpitWidth': ('float', 0, ANY, REQ, 10.0),
        'TargetBarHeight': ('float', 0, ANY, REQ, 4.8), 'TargetBarWidth': ('float', 0, ANY, REQ, 90.0),
        'MinOutletWidth': ('float', 0, ANY, REQ, 1.0), 'OutletSedSpreadDist': ('float', 0, ANY, 100.0, 80.0),
        'OutletBankEroFac': ('float', 0, 1, 0.0, 0.5), 'BarrierPermeability': ('float', 0, ANY, 0.0, 0.001),
        'ShorelineErosionRate': ('float', ANY, ANY, 0.0, 0.3)},
    'NumericalParameters': {
        'Dx': ('float', 0, ANY, REQ, 20.0), 'Beta': ('float', 0, ANY, 1.05, 1.0), 'Theta': ('float', 0, 1, 0.7, 0.6),
        'Psi': ('float', 0, 0.5, 0.4, 0.3), 'ErrTol': ('float', 0, ANY, 0.001, 0.002),
        'MaxIt': ('int', 1, ANY, 30, 20), 'WarnTol': ('float', 0, ANY, 0.1, 0.2),
        'MaxMorChange': ('float', 0, ANY, 0.05, 0.04)},
    'OutputOptions': {
        'OutFile': ('str', ANY, ANY, None, 'o.nc'), 'TsOutFile': ('str', ANY, ANY, None, 't.nc'),
        'OutInt': ('float', 0, ANY, REQ, 3600.0), 'TsOutInt': ('float', 0, ANY, REQ, 600.0),
        'LogInt': ('float', 0, ANY, REQ, 7200.0), 'PlotInt': ('float', 0, ANY, 0.0, 100.0)},
    'SpatialInputs': {
        'ShorelineLengthLeft': ('float', 0, ANY, None, 200.0), 'ShorelineLengthRight': ('float', 0, ANY, None, 300.0),
        'BeachWidth': ('float', 0, ANY, None, 70.0)},
    'BoundaryConditions/ShotnoiseHydrographParameters': {
        'MeanDaysBetweenEvents': ('float', 0, ANY, None, 3.0), 'MeanEventIncrease': ('float', 0, ANY, None, 50.0),
        'FastDecayRate': ('float', 0, ANY, None, 0.4), 'SlowDecayRate': ('float', 0, ANY, None, 0.05),
        'FastFlowProp': ('float', 0, 1, None, 0.7), 'RisingLimbTime': ('float', 0, ANY, None, 0.2),
        'HydrographDt': ('float', 0, ANY, 60.0, 30.0), 'RandomSeed': ('int', ANY, ANY, None, 7)},
    'BoundaryConditions/HarmonicTideParameters': {
        'MeanSeaLevel': ('float', ANY, ANY, 0.0, 0.2), 'TidalRange': ('float', ANY, ANY, None, 1.5),
        'SeaLevelDt': ('float', 0, ANY, 60.0, 15.0)},
    'HotStart': {'InitialConditionsNetCDF': ('str', ANY, ANY, None, 'h.nc'), 'HotStartTime': ('str', ANY, ANY, None, '2001-02-03'),
                 'ContinueSimulation': ('bool', ANY, ANY, False, True)},
}
NAMES = ('ModelName FlowTs WaveTs SeaLevelTs Origin ShoreNormDir ShoreX ShoreY ShoreZ RiverElev OutletEndX '
         'OutletEndWidth OutletEndElev RiverWL RiverVel LagoonWL LagoonVel OutletDep OutletVel OutletEndDep '
         'OutletEndVel Closed TimePars PhysicalPars NumericalPars OutputOpts').split()


def base(full=False):
    """{section: {key: value}} holding every mandatory key (or every ordinary key)."""
    cfg = {}
    for sec, keys in KEYS.items():
        if sec in ('HotStart',):
            continue
        if '/' in sec and not full:
            continue
        d = {}
        for k, (_t, _lo, _hi, dflt, ex) in keys.items():
            if dflt is REQ or full or sec == 'SpatialInputs':
                d[k] = ex
        if d:
            cfg[sec] = d
    return cfg


def put(cfg, sec, **kw):
    cfg.setdefault(sec, {}).update(kw)
    return cfg


def text(cfg, style=0):
    """Configuration file text (style varies layout only)."""
    eq = [' = ', '=', '  =  '][style % 3]
    cm = (style // 3) % 2
    cr = '\r\n' if (style // 6) % 2 else '\n'

    def val(v):
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, (int, float)):
            return repr(v)
        v = str(v)
        return v if v.startswith('!') else ("'%s'" % v if style % 2 == 0 else v)
    out = []

    def body(d):
        for k, v in d.items():
            if cm:
                out.append('# %s [unit] = comment' % k)
            v = val(v)
            out.append(k + eq + (v[1:] if v.startswith('!') else v))
    body(cfg.get('', {}))
    order = [s for s in cfg if s and '/' not in s]
    subs = [s for s in cfg if '/' in s]
    for s in subs:
        if s.split('/')[0] not in order:
            order.append(s.split('/')[0])
    if (style // 12) % 2:
        order.reverse()
    for s in order:
        out.append('')
        out.append('[%s]' % s)
        body(cfg.get(s, {}))
        for t in subs:
            if t.split('/')[0] == s:
                out.append('[[%s]]' % t.split('/')[1])
                body(cfg[t])
    return cr.join(out) + cr


def stamp(t):
    return t.strftime('%d/%m/%Y %H:%M')


def write_series(path, col, times, vals):
    with open(path, 'w') as f:
        f.write('DateTime,%s\n' % col)
        for t, v in zip(times, vals):
            f.write('%s,%r\n' % (stamp(t), float(v)))


WAVECOLS = ('WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore')


def write_waves(path, times, rows):
    with open(path, 'w') as f:
        f.write('DateTime,' + ','.join(WAVECOLS) + '\n')
        for t, r in zip(times, rows):
            f.write(stamp(t) + ',' + ','.join(repr(float(v)) for v in r) + '\n')


def plain_series(d, t0, t1, flow=80.0, sea=0.3, wave=(8.0, 70.0, 4000.0, 10.0, 1.2)):
    """Constant boundary series covering t0..t1."""
    import pandas as pd
    ts = [t0.floor('D') - pd.Timedelta(days=1), t1.ceil('D') + pd.Timedelta(days=1)]
    write_series(os.path.join(d, 'flow.csv'), 'Flow', ts, [flow, flow])
    write_series(os.path.join(d, 'sea.csv'), 'SeaLevel', ts, [sea, sea])
    write_waves(os.path.join(d, 'waves.csv'), ts, [wave, wave])


@contextlib.contextmanager
def folder(tag='cfg'):
    d = scratch(tag)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(d, cfg, name='model.cnf', style=0):
    p = os.path.join(d, name)
    with open(p, 'w', newline='') as f:
        f.write(text(cfg, style))
    return p


def load(path, what='loadModel', allow=()):
    from hapuamod import loadmod
    with sut(what, allow=allow):
        r = loadmod.loadModel(path)
    return SimpleNamespace(**dict(zip(NAMES, r)))


def num(x):
    return np.array(np.ma.filled(x, np.nan), dtype=float)
