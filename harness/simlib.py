"""Short generated simulations: configuration, boundary series and initial geometry in a folder, run through the real main."""
import os
import shutil
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import outlib as ol
from props.l03 import place, write_shapes

T0 = '2004-02-27 00:00'
HURUNUI = {'Shoreline': 'HurunuiShoreline', 'RiverLocation': 'RiverInflow', 'BarrierBackshore': 'LagoonPolyline', 'CliffToe': 'CliffPolyline',
           'OutletLocation': 'InitialOutlet'}           # geometry shipped with the repository


def strategy(tier, plot=False):
    @st.composite
    def s(draw):
        c = {'mode': draw(pick('default', 'default', 'shapes', 'open', 'closed', 'narrow', 'hurunui'))}
        c['dx'] = draw(pick(20.0, 15.0, 30.0, 12.5, 0.1 * 170))
        c['mdmin'] = draw(pick(10.0, 15.0, 5.0, 20.0, 7.5))
        c['hyddt'] = c['mdmin'] / draw(pick(1, 1, 2, 3))
        c['mdmax'] = c['mdmin'] * draw(pick(1, 2, 4, 16, 64, 200))
        c['start'] = draw(st.integers(0, 2880))                        # minutes
        steps = draw(st.integers(3, 30 if tier == 'quick' else 60))
        c['dur'] = max(1, round(c['mdmin'] * steps * draw(pick(1, 2, 3, 6)) / 60))  # minutes
        if draw(st.integers(0, 3)) == 0:
            c['dur'] += draw(pick(0.5, 0.25, 0.05))                   # odd seconds
        c['outint'] = draw(st.one_of(pick(0.0, 1.0, 60.0, 300.0, 86400.0), fl(20.0, 1200.0, 1180)))
        c['tsint'] = draw(st.one_of(pick(0.0, 0.0, 1.0, 60.0), fl(10.0, 900.0, 890)))
        c['logint'] = draw(pick(0.0, 60.0, 600.0, 1e6))
        c['maxmor'] = draw(pick(0.05, 0.01, 0.2))
        c['nl'], c['nr'] = draw(st.integers(4, 14)), draw(st.integers(4, 14))
        c['ul'] = draw(st.integers(2, 10)) * c['dx']
        c['beach'] = draw(fl(30.0, 140.0))
        c['ow'] = draw(pick(30.0, 60.0, 12.0)) if c['mode'] != 'narrow' else draw(fl(1.2, 6.0))
        c['phys'] = {'RiverWidth': draw(pick(60.0, 30.0, 120.0)), 'RiverSlope': draw(pick(0.003, 0.001, 0.01)),
                     'SpitWidth': draw(pick(10.0, 20.0)), 'MinOutletWidth': draw(pick(1.0, 5.0, 0.1)),
                     'Kcoef': draw(pick(0.03, 0.3, 0.0)), 'BeachSlope': draw(pick(0.13, 0.08, 0.2)),
                     'OT_coef': draw(pick(0.0002, 0.01)), 'BarrierPermeability': draw(pick(0.0, 0.001, 0.02)),
                     'ShorelineErosionRate': draw(pick(0.0, 0.5, -0.5)), 'OutletBankEroFac': draw(pick(0.0, 0.5, 1.0)),
                     'GrainSize': draw(pick(0.025, 0.005)), 'MaxOutletElev': draw(pick(-1.5, -2.5)), 'VoidRatio': 0.4}
        c['num'] = {'Theta': draw(pick(0.7, 0.6, 1.0)), 'Psi': draw(pick(0.4, 0.5, 0.2)), 'MaxIt': 50,
                    'Beta': draw(pick(1.05, 1.05, 0.0, 1.1))}
        c['lb'], c['ob'], c['be'] = draw(pick(-1.0, -0.5, 0.3)), draw(pick(-1.0, -1.3)), draw(pick(4.0, 3.0))
        # boundary series: values every 'int' minutes
        n = draw(st.integers(2, 5))
        base = draw(pick(30.0, 80.0, 200.0))
        c['flow'] = [base * f for f in draw(fls(0.6, draw(pick(1.2, 3.0)), n))]
        c['tide'] = {'TidalRange': draw(fl(0.0, 2.5)), 'MeanSeaLevel': draw(sfl(0.4)), 'SeaLevelDt': draw(pick(15.0, 5.0))}
        c['sea'] = draw(st.one_of(st.none(), sfls(0.8, n)))
        c['waves'] = [[draw(fl(5.0, 14.0)), draw(fl(40.0, 120.0)), draw(pick(0.0, 4e3, 4e4)), draw(fl(0.0, 360.0)), draw(pick(0.4, 1.5, 4.0))] for _ in range(n)]
        c['shot'] = draw(st.integers(0, 3)) == 0
        c['seed'] = draw(st.integers(0, 999))
        c['bearing'] = draw(st.one_of(st.integers(-70, 70), st.integers(110, 250)))
        c['side'] = draw(pick(1, -1))
        c['lwl'] = draw(fl(1.0, 3.6)) if c['mode'] == 'closed' else draw(fl(0.4, 1.2))
        c['relic'] = draw(st.integers(0, 2))
        c['lv0'] = draw(pick(0, 0, 1, 2))
        c['end'] = draw(pick(0.5, 0.995, 0.98, 0.01))
        c['cx'] = draw(pick(0, 0, 1, 2))
        c['cont'] = draw(st.booleans())
        c['plot'] = plot and draw(st.integers(0, 29)) == 29
        c['named'] = draw(st.booleans())
        return c
    return s()


def period(c):
    import pandas as pd
    a = pd.Timestamp(T0) + pd.Timedelta(minutes=c['start'])
    return a, a + pd.Timedelta(seconds=round(60 * c['dur'], 3))


def config(c):
    t0, t1 = period(c)
    cfg = cl.base()
    fmt = '%Y-%m-%d %H:%M:%S.%f'
    cl.put(cfg, 'Time', StartTime=t0.strftime(fmt), EndTime=t1.strftime(fmt), HydDt=c['hyddt'], MorDtMin=c['mdmin'], MorDtMax=c['mdmax'])
    cl.put(cfg, 'PhysicalParameters', UpstreamLength=c['ul'], TargetBarWidth=c['phys']['SpitWidth'] + 80, **c['phys'])
    cl.put(cfg, 'NumericalParameters', Dx=c['dx'], MaxMorChange=c['maxmor'], **c['num'])
    cl.put(cfg, 'OutputOptions', OutInt=c['outint'], TsOutInt=c['tsint'], LogInt=c['logint'])
    cl.put(cfg, 'InitialConditions', OutletWidth=c['ow'], OutletBed=c['ob'], LagoonBed=c['lb'], BarrierElev=c['be'])
    cfg['SpatialInputs'] = {'ShorelineLengthLeft': c['nl'] * c['dx'], 'ShorelineLengthRight': c['nr'] * c['dx'], 'BeachWidth': c['beach']}
    if c['sea'] is None:
        cl.put(cfg, 'BoundaryConditions', SeaLevel='harmonic')
        cfg['BoundaryConditions/HarmonicTideParameters'] = dict(c['tide'])
    if c['shot']:
        cl.put(cfg, 'BoundaryConditions', RiverFlow='shotnoise')
        cfg['BoundaryConditions/ShotnoiseHydrographParameters'] = {
            'MeanDaysBetweenEvents': 1.0, 'MeanEventIncrease': c['flow'][0] / 5, 'FastDecayRate': 0.4, 'SlowDecayRate': 0.1, 'FastFlowProp': 0.7,
            'RisingLimbTime': 0.1, 'HydrographDt': 15.0, 'RandomSeed': c['seed']}
    if c.get('plot'):
        cl.put(cfg, 'OutputOptions', PlotInt=max(60.0, 60 * c['dur'] / 3))
    if c.get('plotat'):
        cl.put(cfg, 'OutputOptions', PlotInt=c['plotat'])
    if c['named']:
        cl.put(cfg, 'OutputOptions', OutFile='res.nc', TsOutFile='res_ts.nc')
    return cfg


def outputs(c):
    return ('res.nc', 'res_ts.nc') if c['named'] else ('model_outputs.nc', 'model_TSoutputs.nc')


def setup(d, c):
    """Write all inputs to folder d; returns the configuration's path."""
    import pandas as pd
    t0, t1 = period(c)
    cfg = config(c)
    a, b = t0.floor('H') - pd.Timedelta(hours=1), t1.ceil('H') + pd.Timedelta(hours=1)
    n = len(c['flow'])
    ts = [a + (b - a) * k / (n - 1) for k in range(n)]
    ts = [ts[0]] + [t.floor('min') for t in ts[1:]]
    if not c['shot']:
        cl.write_series(os.path.join(d, 'flow.csv'), 'Flow', ts, c['flow'])
    if c['sea'] is not None:
        cl.write_series(os.path.join(d, 'sea.csv'), 'SeaLevel', ts, c['sea'])
    cl.write_waves(os.path.join(d, 'waves.csv'), ts, c['waves'])
    if c['mode'] == 'shapes':
        dx = c['dx']
        L, R = -(c['nl'] + 1.3) * dx, (c['nr'] + 1.4) * dx
        cliff, lag = -c['beach'] - 70.0, -c['beach']
        sd = c['side']
        lines = [np.array([(L, 0.), (0.3 * dx, c.get('bump', 3.0)), (R, 0.)]), np.array([(L - 500, cliff), (R + 500, cliff)]),
                 np.array([(-2.6 * dx, lag), (3.3 * dx, lag)]),
                 np.array([(sd * 0.45 * dx, lag - 20.0), (sd * 0.7 * dx, -0.55 * c['beach']), (sd * 2.6 * dx, -0.45 * c['beach']), (sd * 2.8 * dx, 20.0)])]
        rpt = np.array([0.1 * dx, cliff - 30.0])
        if c.get('mirror'):
            lines, rpt = [p * [-1.0, 1.0] for p in lines], rpt * [-1.0, 1.0]
        e, n_ = c.get('org', (1.5e6, 5.1e6))
        write_shapes(d, [place(p, c['bearing'], e, n_) for p in lines], place(rpt, c['bearing'], e, n_), [0, 1, 0, 1], 0)
        cfg['SpatialInputs'] = {'Shoreline': 'Shore.shp', 'RiverLocation': 'River.shp', 'BarrierBackshore': 'Lagoon.shp',
                                'CliffToe': 'Cliff.shp', 'OutletLocation': 'Outlet.shp'}
    elif c['mode'] == 'hurunui':
        src = os.path.join(REPO, 'inputs')
        for f in os.listdir(src):
            if f[:-4] in HURUNUI.values() and f[-4:] in ('.shp', '.shx', '.dbf', '.prj'):
                shutil.copy(os.path.join(src, f), d)
        cfg['SpatialInputs'] = {k: v + '.shp' for k, v in HURUNUI.items()}
    elif c['mode'] in ('open', 'closed'):
        hotfile(os.path.join(d, 'hot.nc'), c, t0)
        cfg['HotStart'] = {'InitialConditionsNetCDF': 'hot.nc', 'HotStartTime': t0.strftime('%Y-%m-%d %H:%M'), 'ContinueSimulation': c['cont']}
        cfg.pop('SpatialInputs')
    return cl.write(d, cfg)


def hotfile(path, c, t0):
    """A lagoon with an open (angled) or closed outlet as a saved state."""
    dx = c['dx']
    n = c['nl'] + c['nr'] + 1
    x = dx * (np.arange(n) - c['nl'])
    nriv = max(1, int(round(c['ul'] / dx)))
    g = {'dx': dx, 'n': n, 'k0': -c['nl'], 'nr': nriv}
    Y = np.full((n, 5), np.nan)
    Y[:, 0] = 0.0
    Y[:, 3] = Y[:, 4] = -c['beach'] - 60.0
    lag = np.abs(x) <= 3.5 * dx
    Y[lag, 3] = -c['beach']
    Z = np.full((n, 4), np.nan)
    Z[:, 0] = c['be']
    Z[:, 3] = c['lb']
    sd = c['side']
    nan = np.full(n, np.nan)
    zero = np.zeros(n)
    w = min(c['ow'], 0.5 * c['beach'])
    if c['mode'] == 'open':
        m = (x * sd >= -1e-9) & (x * sd <= 2 * dx + 1e-9)
        oex = np.array([0.0, sd * (2 + c.get('end', 0.5)) * dx])
        closed = False
    else:
        m = np.zeros(n, bool)
        if c['relic']:
            m = (x * sd >= dx - 1e-9) & (x * sd <= (c['relic'] + 1) * dx + 1e-9)
        oex = np.array([sd * c['cx'] * dx] * 2)
        closed = True
    Y[m, 1] = -0.3 * c['beach']
    Y[m, 2] = Y[m, 1] - w
    Z[m, 1] = c['ob'] if c['mode'] == 'open' else c['lb']
    Z[m, 2] = c['be']
    Y[m, 2] = np.maximum(Y[m, 2], Y[m, 3] + 0.5)
    lwl = np.where(lag, c['lwl'], np.nan)
    lvel = np.where(lag, 0.01, np.nan)
    if c['lv0']:
        lvel[np.flatnonzero(lag)[::-1 if c.get('mirror') else 1][:c['lv0']]] = 0.0       # still water in part of the lagoon
    odep = np.where(m & (not closed), np.maximum(c['lwl'] - Z[:, 1], 0.3), np.nan)
    ovel = np.where(m & (not closed), 0.4, np.nan)
    rz = c['lb'] + c['phys']['RiverSlope'] * dx * np.arange(nriv)[::-1]
    rdep = np.maximum(c['lwl'] - rz, 0.5)
    oed = np.array([max(0.3, 0.3 - c['ob']), 2.0]) if not closed else np.array([np.nan] * 2)
    oev = np.array([0.4, 0.2]) if not closed else np.array([np.nan] * 2)
    s = {'x': x, 'Y': Y, 'Z': Z, 'lwl': lwl, 'lvel': lvel, 'lbed': nan, 'odep': odep, 'ovel': ovel, 'obed': nan, 'lst': np.zeros(n - 1), 'cst': zero,
         'ow': zero, 'rz': rz, 'rdep': rdep, 'rvel': np.full(nriv, 0.3), 'rbed': np.zeros(nriv), 'oex': oex, 'oez': c['ob'], 'oew': w, 'oed': oed,
         'oev': oev, 'oeb': np.array([np.nan, np.nan]), 'sea': 0.0, 'flow': c['flow'][0], 'hs': 1.0, 'edir': 0.0, 'closed': closed}
    ol.create(path, g, t0, (10.0, 20.0), 0.3)
    ol.put(path, t0, s)


def run(d, path, overwrite=True, what='simulation'):
    """Run the real main with folder d as working directory."""
    from hapuamod import core
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with sut(what):
            core.main(path, overwrite)
    finally:
        os.chdir(cwd)


def results(path):
    """All variables of a results file (NaN for masked) and its times as Timestamps."""
    import netCDF4
    import pandas as pd
    with netCDF4.Dataset(path) as nc:
        v = {k: np.array(np.ma.filled(nc.variables[k][:], np.nan) if nc.variables[k].dtype.kind == 'f' else nc.variables[k][:]) for k in nc.variables}
        tv = nc.variables['time']
        t = np.atleast_1d(netCDF4.num2date(tv[:], tv.units, getattr(tv, 'calendar', 'standard'), only_use_cftime_datetimes=False,
                                           only_use_python_datetimes=True)) if tv.size else []
    return v, [pd.Timestamp(a) for a in t]
