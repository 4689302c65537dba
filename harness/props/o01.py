"""O01 results files round trip."""
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import outlib as ol

ID = 'O01'
RULE = ('random grids and histories of 1..5 random model states (open/closed, relic channels, either outlet direction, missing values) at '
        'increasing times, interleaved with time series rows; non-trivial = at least 2 output times')
N = {'quick': 340, 'thorough': 12000}
TS = ('sea_level', 'river_flow', 'hs_offshore', 'wave_dir', 'lagoon_level', 'lagoon_outflow', 'sed_inflow')


def strategy(tier):
    @st.composite
    def s(draw):
        g = ol.grid(draw)
        k = draw(st.integers(1, 5 if tier == 'quick' else 8))
        return {'g': g, 'start': draw(st.integers(-4 * 10 ** 8, 4 * 10 ** 8)), 'states': [ol.state(draw, g) for _ in range(k)],
                'gaps': [draw(st.one_of(pick(60.0, 3600.0, 86400.0), fl(1.0, 1e6, 10 ** 6), pick(0.25, 1e8))) for _ in range(k)],
                'first': draw(pick(0, 1)), 'py': draw(pick(0, 1)), 'reader': draw(ints(k, 3)),
                'ts': [[draw(sfl(100.0)) for _ in range(7)] + [draw(sfl(500.0)), draw(sfl(500.0)), draw(st.booleans()), draw(fl(0.0, 2e5))] for _ in range(k)]}
    return s()


def check(c):
    import os
    import netCDF4
    import pandas as pd
    from hapuamod import out
    g = c['g']
    start = pd.Timestamp('2005-05-05') + pd.Timedelta(seconds=c['start'])
    secs = np.cumsum(np.array(c['gaps'])) - (0 if c['first'] else c['gaps'][0])
    times = [start + pd.Timedelta(microseconds=round(float(v) * 1e6)) for v in secs]
    times = [t.to_pydatetime() if c['py'] else t for t in times]
    S = [ol.build(g, d) for d in c['states']]
    with cl.folder('o01') as d:
        p, q = os.path.join(d, 'o.nc'), os.path.join(d, 't.nc')
        ol.create(p, g, start, (12.5, -3.0), 0.7)
        with sut('newTsOutFile'):
            out.newTsOutFile(q, 'generated', start, False)
        for i, (t, s, ts) in enumerate(zip(times, S, c['ts'])):
            ol.put(p, t, s)
            with sut('writeTsOut'):
                out.writeTsOut(q, t, *(ts[:7]), np.array(ts[7:9]), ts[9], pd.Timedelta(microseconds=round(ts[10] * 1e6)))
            if i == 0 and len(S) > 1:
                raw(p, times[:1], S[:1], g, start)
        raw(p, times, S, g, start)
        for i in range(len(S)):
            if c['reader'][i] < 2:
                reader(p, i, times[i], S[i], g, c['reader'][i])
        with netCDF4.Dataset(q) as nc:
            timecheck(nc, times)
            for j, nm in enumerate(TS):
                v = nc.variables[nm]
                ol.single(v[:], [r[j] * ol.factor(v.units) for r in c['ts']], 'time series ' + nm)
            ol.single(nc.variables['outlet_end_x'][:], [r[7:9] for r in c['ts']], 'time series outlet_end_x')
            need([bool(v) for v in nc.variables['outlet_closed'][:]] == [bool(r[9]) for r in c['ts']], 'time series closed state')
            ol.single(nc.variables['mordt'][:], [r[10] * ol.factor(nc.variables['mordt'].units) for r in c['ts']], 'time series mordt')
    return {'nontrivial': len(S) > 1, 'classes': ['closed' if any(s['closed'] for s in S) else 'open', '%d-times' % len(S)]}


def timecheck(nc, times):
    import netCDF4
    import pandas as pd
    tv = nc.variables['time']
    need(tv.size == len(times), '%d output times stored, %d written', tv.size, len(times))
    got = netCDF4.num2date(tv[:], tv.units, getattr(tv, 'calendar', 'standard'), only_use_cftime_datetimes=False, only_use_python_datetimes=True)
    for a, b in zip(np.atleast_1d(got), times):
        need(abs((pd.Timestamp(a) - pd.Timestamp(b)).total_seconds()) < 2e-5, 'stored time %s, written %s', a, b)


def raw(p, times, S, g, start):
    import netCDF4
    with netCDF4.Dataset(p) as nc:
        timecheck(nc, times)
        n = g['n']
        ol.single(nc.variables['transect_x'][:], S[0]['x'], 'transect_x')
        ol.single(nc.variables['shore_segment_x'][:], (S[0]['x'][1:] + S[0]['x'][:-1]) / 2, 'shore_segment_x')
        ol.single(nc.variables['river_dist'][:], g['dx'] * np.arange(g['nr']), 'river_dist')
        for nm, f in ol.RAW.items():
            need(nm in nc.variables, 'results file has no variable %s', nm)
            v = nc.variables[nm]
            k = ol.factor(v.units)
            for i, s in enumerate(S):
                ol.single(v[i], np.asarray(f(s), float) * k, '%s at output time %d' % (nm, i))
        need([bool(v) for v in nc.variables['outlet_closed'][:]] == [s['closed'] for s in S], 'closed state %s', nc.variables['outlet_closed'][:])


def reader(p, i, t, s, g, form):
    import netCDF4
    import pandas as pd
    from hapuamod import out
    with netCDF4.Dataset(p) as nc:
        with sut('readTimestep'):
            r = out.readTimestep(nc, i if form == 0 else np.array([i]))
    (sea, flow, hs, edir, X, Y, Z, lwl, lvel, owl, ovel, oex, oew, oez, oev, oewl, ddep, dvel, ocix, _wp, edir2, lst, cst, closed,
     rz, rwl, rvel, mt) = r
    for nm, got, want in (('sea level', sea, s['sea']), ('flow', flow, s['flow']), ('wave height', hs, s['hs']), ('wave direction', edir, s['edir']),
                          ('wave direction (2)', edir2, s['edir']), ('transects', X, s['x']), ('lagoon level', lwl, s['lwl']),
                          ('lagoon velocity', lvel, s['lvel']), ('outlet level', owl, s['odep'] + s['Z'][:, 1]), ('outlet velocity', ovel, s['ovel']),
                          ('outlet ends', oex, s['oex']), ('outlet end width', oew, s['oew']), ('outlet end bed', oez, s['oez']),
                          ('outlet end velocity', oev, s['oev'][0]), ('outlet end level', oewl, s['oez'] + s['oed'][0]), ('sea section depth', ddep, s['oed'][1]),
                          ('sea section velocity', dvel, s['oev'][1]), ('longshore transport', lst, s['lst']), ('crest flux', cst, s['cst']),
                          ('river bed', rz, s['rz']), ('river level', rwl, s['rz'] + s['rdep']), ('river velocity', rvel, s['rvel'])):
        ol.single(np.asarray(np.ma.filled(got, np.nan), float).reshape(np.shape(want)), want, 'read back ' + nm)
    need(np.shape(Y) == s['Y'].shape and np.shape(Z) == s['Z'].shape, 'profiles read back with shapes %s, %s', np.shape(Y), np.shape(Z))
    for j in range(5):
        ol.single(Y[:, j], s['Y'][:, j], 'read back ShoreY column %d' % j)
    for j in range(4):
        ol.single(Z[:, j], s['Z'][:, j], 'read back ShoreZ column %d' % j)
    need(bool(closed) == s['closed'], 'closed state read back as %r', closed)
    mt = np.ravel(mt)[0]
    dt = pd.Timestamp(mt.year, mt.month, mt.day, mt.hour, mt.minute, mt.second, mt.microsecond) - pd.Timestamp(t)
    need(abs(dt.total_seconds()) < 2e-5, 'model time read back as %s, written %s', mt, t)
    a, b = s['oex']
    if s['closed']:
        need(np.size(ocix) == 0, 'closed outlet read back with channel transects %s', ocix)
    else:
        f = np.float32
        w = [k for k in range(g['n']) if f(min(a, b)) <= f(s['x'][k]) <= f(max(a, b))]
        w = w if a < b else w[::-1]
        need(list(np.asarray(ocix)) == w, 'channel transects read back as %s, expected %s', list(ocix), w)
