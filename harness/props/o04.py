"""O04 hot start."""
import os
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import outlib as ol

ID = 'O04'
RULE = ('histories of 1..4 random saved states written with the real writer, loaded through a configuration asking for a time at/near/between them, '
        'with or without continuing, matching or different spacing, or a later start than the series cover; non-trivial = more than one saved time')
N = {'quick': 700, 'thorough': 16000}


def strategy(tier):
    @st.composite
    def s(draw):
        g = ol.grid(draw)
        k = draw(st.integers(1, 4))
        return {'g': g, 'states': [ol.state(draw, g) for _ in range(k)], 'gaps': [draw(st.integers(1, 200)) for _ in range(k)],
                'at': draw(st.integers(0, k - 1)), 'off': draw(sfl(0.45)), 'cont': draw(pick(None, False, True, True)),
                'dx': draw(pick('same', 'same', 'same', 'same', 'same', 'bigger', 'smaller', 'close')),
                'series': draw(pick('ok', 'ok', 'ok', 'ok', 'late')),
                'org': [draw(sfl(2e6)), draw(sfl(6e6))], 'nd': draw(sfl(3.14)), 'mdmin': draw(pick(10.0, 60.0)), 'sub': draw(st.booleans())}
    return s()


def check(c):
    import pandas as pd
    g = c['g']
    t0 = pd.Timestamp('2003-03-03')
    hrs = np.cumsum(c['gaps']) - c['gaps'][0]
    times = [t0 + pd.Timedelta(hours=int(h)) for h in hrs]
    S = [ol.build(g, d) for d in c['states']]
    w = c['at']
    gap = min([abs(int(hrs[w]) - int(h)) for j, h in enumerate(hrs) if j != w] or [10])
    ask = times[w] + pd.Timedelta(minutes=int(60 * gap * c['off']))
    cfg = cl.base()
    dx = g['dx'] * {'same': 1, 'bigger': 1.5, 'smaller': 0.5, 'close': 1.05}[c['dx']]
    cfg.pop('SpatialInputs')
    cl.put(cfg, 'NumericalParameters', Dx=dx)
    begin = t0 - pd.Timedelta(days=2)
    end = times[-1] + pd.Timedelta(days=3)
    cl.put(cfg, 'Time', StartTime=begin.strftime('%Y-%m-%d %H:%M'), EndTime=end.strftime('%Y-%m-%d %H:%M'), MorDtMin=c['mdmin'])
    fn = 'sub/h.nc' if c['sub'] else 'h.nc'
    cfg['HotStart'] = {'InitialConditionsNetCDF': fn, 'HotStartTime': ask.strftime('%Y-%m-%d %H:%M')}
    if c['cont'] is not None:
        cfg['HotStart']['ContinueSimulation'] = c['cont']
    late = c['series'] == 'late'
    with cl.folder('o04') as d:
        if c['sub']:
            os.makedirs(os.path.join(d, 'sub'))
        cl.plain_series(d, begin, end)
        if late:
            # covers the run only from just after the time it should start at
            first = times[w] + pd.Timedelta(minutes=1) if c['cont'] else begin + pd.Timedelta(minutes=1)
            cl.write_series(os.path.join(d, 'sea.csv'), 'SeaLevel', [first, end + pd.Timedelta(days=2)], [0.0, 0.0])
        elif c['cont']:
            # need only cover the continued part
            cl.write_series(os.path.join(d, 'sea.csv'), 'SeaLevel', [times[w], end + pd.Timedelta(days=2)], [0.0, 0.0])
        p = os.path.join(d, fn)
        ol.create(p, g, t0, c['org'], c['nd'])
        for t, s in zip(times, S):
            ol.put(p, t, s)
        old = open(p, 'rb').read()
        path = cl.write(d, cfg)
        if c['dx'] != 'same' and abs(dx - g['dx']) > 0.002 or late:
            try:
                cl.load(path, allow=(Exception,))
            except Violation:
                raise
            except Exception:
                return {'nontrivial': True, 'classes': ['rejected-spacing' if c['dx'] != 'same' else 'rejected-series']}
            raise Violation('hot start with %s accepted' % ('spacing %g from results with %g' % (dx, g['dx']) if c['dx'] != 'same' else 'series starting too late'))
        if c['dx'] != 'same':
            raise Discard()
        m = cl.load(path)
        need(open(p, 'rb').read() == old, 'hot start file was modified')
    s = S[w]
    n = g['n']
    need(m.TimePars['StartTime'] == (times[w] if c['cont'] else begin), 'start time %s (saved state of %s, configured start %s, continue=%s)',
         m.TimePars['StartTime'], times[w], begin, c['cont'])
    need(m.TimePars['EndTime'] == end, 'end time %s', m.TimePars['EndTime'])
    # the saved state of sea section and outlet end are needed for an open outlet
    for nm, got, want in (('ShoreX', m.ShoreX, s['x']), ('RiverElev', m.RiverElev, s['rz']), ('RiverWL', m.RiverWL, s['rz'] + s['rdep']),
                          ('RiverVel', m.RiverVel, s['rvel']), ('LagoonWL', m.LagoonWL, s['lwl']), ('LagoonVel', m.LagoonVel, s['lvel']),
                          ('OutletVel', m.OutletVel, s['ovel']), ('OutletEndX', m.OutletEndX, s['oex']),
                          ('OutletEndWidth', m.OutletEndWidth, s['oew']), ('OutletEndElev', m.OutletEndElev, s['oez']),
                          ('OutletEndVel', m.OutletEndVel, s['oev'])):
        ol.single(cl.num(got).reshape(np.shape(want)), want, nm)
        if nm not in ('OutletEndVel',):
            need(getattr(got, 'dtype', None) == np.float64 and not np.ma.isMaskedArray(got), '%s is not a plain double precision array', nm)
    for j in range(5):
        ol.single(m.ShoreY[:, j], s['Y'][:, j], 'ShoreY column %d' % j)
    for j in range(4):
        ol.single(m.ShoreZ[:, j], s['Z'][:, j], 'ShoreZ column %d' % j)
    need(m.ShoreY.dtype == np.float64 and m.ShoreZ.dtype == np.float64, 'geometry is not double precision')
    close(cl.num(m.OutletDep), s['odep'], 'OutletDep', 1e-5, 2e-5)
    close(cl.num(m.OutletEndDep).reshape(2), s['oed'], 'OutletEndDep', 1e-5, 2e-5)
    need(bool(m.Closed) == s['closed'], 'closed state %r, saved %r', m.Closed, s['closed'])
    close(m.Origin, c['org'], 'origin', 1e-12, 1e-9)
    close((float(m.ShoreNormDir) - c['nd'] + np.pi) % (2 * np.pi), np.pi, 'shore normal', 0, 1e-9)
    # waves are turned by the orientation of the saved model (plain_series: 10 degrees)
    e = (m.WaveTs['EDir_h'].values - (np.deg2rad(10.0) - c['nd']) + np.pi) % (2 * np.pi) - np.pi
    close(e, np.zeros(len(e)), 'wave direction relative to saved shore normal (error)', 0, 1e-9)
    # a transect for every channel transect of the saved outlet
    if not s['closed'] and s['oex'][0] != s['oex'][1]:
        f = (cl.num(m.ShoreX) >= min(m.OutletEndX)) & (cl.num(m.ShoreX) <= max(m.OutletEndX))
        a = (s['x'] >= min(s['oex'])) & (s['x'] <= max(s['oex']))
        need(np.array_equal(f, a), 'outlet channel covers transects %s, saved %s', np.flatnonzero(f), np.flatnonzero(a))
    return {'nontrivial': len(S) > 1, 'classes': ['closed' if s['closed'] else 'open', 'continue' if c['cont'] else 'restart']}
