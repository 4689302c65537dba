"""L04 boundary time series."""
import math
import os
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
from props.l03 import place, write_shapes, fit

ID = 'L04'
RULE = ('flow/wave/sea level files of any regular or irregular interval starting/ending before, at or inside the run, directions over the '
        'full circle, default or rotated coasts; or synthetic flow/tide from the configuration; non-trivial = a series longer than the run, '
        'a series too short (rejection) or a synthetic series')
N = {'quick': 1300, 'thorough': 34000}


def strategy(tier):
    @st.composite
    def series(draw, dur, kind):
        # offsets in minutes relative to the start of the run
        if kind == 'short':
            side = draw(pick('late', 'early'))
        else:
            side = 'none'
        a = draw(st.one_of(pick(0, -1), st.integers(-4000, 0)))
        b = draw(st.one_of(pick(0, 1), st.integers(0, 4000))) + dur
        if side == 'late':
            a = draw(st.one_of(pick(1), st.integers(1, max(1, dur - 1))))
        elif side == 'early':
            b = dur - draw(st.one_of(pick(1), st.integers(1, dur)))
        if b <= a and side == 'late':
            b = a + 10
        elif b <= a:
            a, b = b - 10, a if side == 'none' else b
            if side == 'none':
                a, b = min(a, 0), max(b, dur)
        n = draw(st.integers(0, 25))
        reg = draw(st.booleans())
        if reg:
            mid = [a + round((b - a) * (k + 1) / (n + 1)) for k in range(n)]
        else:
            mid = [a + 1 + v % max(1, b - a - 1) for v in draw(ints(n, 60000))]
        ts = sorted({a, b} | {m for m in mid if a < m < b})
        return {'t': ts, 'side': side}

    @st.composite
    def s(draw):
        dur = draw(st.one_of(pick(60, 1440, 2880), st.integers(1, 6000)))
        short = draw(pick(None, None, None, 'flow', 'waves', 'sea'))
        c = {'start': draw(st.integers(0, 400 * 1440)), 'dur': dur, 'short': short, 'mdmax': draw(pick(15, 600, 3600, 86400)),
             'mdmin': draw(pick(None, None, 60, 600, 1800, 3600)), 'sec': draw(pick(0, 0, 1, 30, 59))}
        c['synflow'] = short != 'flow' and draw(st.integers(0, 3)) == 0
        c['syntide'] = short != 'sea' and draw(st.integers(0, 3)) == 0
        for k in ('flow', 'waves', 'sea'):
            c[k] = draw(series(dur, 'short' if short == k else 'ok'))
            c[k]['v'] = draw(fls(0.0, 200.0, len(c[k]['t']))) if k != 'sea' else draw(sfls(3.0, len(c[k]['t'])))
        n = len(c['waves']['t'])
        c['dirs'] = draw(st.one_of(fls(0.0, 360.0, n, 3600), sfls(720.0, n)))
        c['wper'] = draw(fls(3.0, 18.0, n))
        c['coast'] = draw(pick(None, 0, 1))
        c['bearing'] = draw(st.one_of(st.integers(-75, 75), st.integers(105, 255)))
        c['sn'] = {'MeanDaysBetweenEvents': draw(fl(0.2, 4.0)), 'MeanEventIncrease': draw(fl(1.0, 300.0)),
                   'FastDecayRate': draw(fl(0.1, 2.0)), 'SlowDecayRate': draw(fl(0.01, 0.2)), 'FastFlowProp': draw(fl(0.0, 1.0)),
                   'RisingLimbTime': draw(fl(0.02, 0.5)), 'RandomSeed': draw(st.integers(0, 9999))}
        if draw(st.booleans()):
            c['sn']['HydrographDt'] = draw(pick(5.0, 15.0, 60.0, 180.0, 7.0))
        c['hstart'] = draw(pick(None, None, 1, 5))
        c['ht'] = {'TidalRange': draw(fl(0.0, 5.0))}
        if draw(st.booleans()):
            c['ht']['MeanSeaLevel'] = draw(sfl(2.0))
        if draw(st.booleans()):
            c['ht']['SeaLevelDt'] = draw(pick(1.0, 5.0, 7.0, 60.0, 90.0))
        c['abs'] = draw(st.booleans())
        return c
    return s()


def check(c):
    import pandas as pd
    from hapuamod import synth
    t0 = pd.Timestamp('1999-06-15') + pd.Timedelta(minutes=c['start'])
    tz = t0                                      # origin of the series
    if not c['short'] and not c['synflow'] and not c['syntide']:
        t0 = t0 + pd.Timedelta(seconds=c['sec'])
    t1 = tz + pd.Timedelta(minutes=c['dur'])
    cfg = cl.base()
    fmt = '%Y-%m-%d %H:%M:%S'
    if c['mdmin']:
        cl.put(cfg, 'Time', MorDtMin=float(c['mdmin']))
        c['mdmax'] = max(c['mdmax'], c['mdmin'])
    cl.put(cfg, 'Time', StartTime=t0.strftime(fmt), EndTime=t1.strftime(fmt), MorDtMax=float(c['mdmax']))
    tt = {k: [tz + pd.Timedelta(minutes=m) for m in c[k]['t']] for k in ('flow', 'waves', 'sea')}
    rows = [[p, 5 * p, v, e, v / 50] for p, v, e in zip(c['wper'], c['waves']['v'], c['dirs'])]
    with cl.folder('l04') as d:
        cl.write_series(os.path.join(d, 'flow.csv'), 'Flow', tt['flow'], c['flow']['v'])
        cl.write_series(os.path.join(d, 'sea.csv'), 'SeaLevel', tt['sea'], c['sea']['v'])
        cl.write_waves(os.path.join(d, 'waves.csv'), tt['waves'], rows)
        if c['abs']:
            cl.put(cfg, 'BoundaryConditions', WaveConditions=os.path.join(d, 'waves.csv'))
        if c['synflow']:
            cl.put(cfg, 'BoundaryConditions', RiverFlow='ShotNoise' if c['dur'] % 2 else 'shotnoise')
            cl.put(cfg, 'BoundaryConditions/ShotnoiseHydrographParameters', **c['sn'])
            if c['hstart']:
                cl.put(cfg, 'BoundaryConditions/ShotnoiseHydrographParameters',
                       HydrographStart=(t0 - pd.Timedelta(days=c['hstart'])).strftime(fmt))
        if c['syntide']:
            cl.put(cfg, 'BoundaryConditions', SeaLevel='Harmonic' if c['dur'] % 2 else 'harmonic')
            cl.put(cfg, 'BoundaryConditions/HarmonicTideParameters', **c['ht'])
        nd = 0.0
        if c['coast'] is not None:
            lines = [np.array([(-400., 0.), (-100., 4.), (400., 0.)]), np.array([(-900., -200.), (900., -200.)]),
                     np.array([(-200., -60.), (200., -60.)]), np.array([(5., -90.), (95., 20.)])]
            rpt = np.array([10., -180.])
            wl = [place(p, c['bearing'], 1.6e6, 5.2e6) for p in lines]
            wr = place(rpt, c['bearing'], 1.6e6, 5.2e6)
            write_shapes(d, wl, wr, [c['coast']] * 4, 0)
            cfg['SpatialInputs'] = {'Shoreline': 'Shore.shp', 'RiverLocation': 'River.shp', 'BarrierBackshore': 'Lagoon.shp',
                                    'CliffToe': 'Cliff.shp', 'OutletLocation': 'Outlet.shp'}
            sl, mx, my = fit(wl[0])
            t = ((wr[0] - mx) + sl * (wr[1] - my)) / (1 + sl * sl)
            nd = math.atan2(wr[0] - mx - t, wr[1] - my - sl * t) + math.pi
        p = cl.write(d, cfg)
        if c['short']:
            if tt[c['short']][0] <= t0 and tt[c['short']][-1] >= t1:
                raise Discard()
            try:
                cl.load(p, allow=(Exception,))
            except Violation:
                raise
            except Exception:
                return {'nontrivial': True, 'classes': ['rejected-' + c[c['short']]['side']]}
            raise Violation('%s series from %s to %s accepted for a simulation from %s to %s' % (
                c['short'], tt[c['short']][0], tt[c['short']][-1], t0, t1))
        m = cl.load(p)
    need(m.TimePars['StartTime'] == t0 and m.TimePars['EndTime'] == t1, 'simulation period %s to %s', m.TimePars['StartTime'], m.TimePars['EndTime'])
    longer = False
    for k, ts in (('flow', m.FlowTs), ('sea', m.SeaLevelTs), ('waves', m.WaveTs)):
        ix = ts.index
        need(len(ix) >= 2, '%s series reduced to %d values', k, len(ix))
        need(ix[0] <= t0 and ix[-1] >= t1, '%s series covers %s to %s only, run is %s to %s', k, ix[0], ix[-1], t0, t1)
        if (k == 'flow' and c['synflow']) or (k == 'sea' and c['syntide']):
            continue
        a = tt[k].index(ix[0]) if ix[0] in tt[k] else -1
        need(a >= 0 and list(ix) == tt[k][a:a + len(ix)], '%s series times are not consecutive times of the file', k)
        longer |= tt[k][0] < t0 or tt[k][-1] > t1
        if k != 'waves':
            need(ts.ndim == 1, '%s series is not a single column', k)
            close(ts.values, c[k]['v'][a:a + len(ix)], k + ' values', 1e-12, 1e-12)
        else:
            w = np.array(rows)[a:a + len(ix)]
            for j, col in enumerate(cl.WAVECOLS):
                if col != 'EDir_h':
                    close(ts[col].values, w[:, j], 'wave ' + col, 1e-12, 1e-12)
            got = ts['EDir_h'].values
            need(np.all((got >= -math.pi - 1e-9) & (got <= math.pi + 1e-9)), 'wave direction outside half a turn: %r', float(got[np.argmax(abs(got))]))
            diff = (got - (np.deg2rad(w[:, 3]) - nd) + math.pi) % (2 * math.pi) - math.pi
            close(diff, np.zeros(len(ix)), 'wave direction relative to shore normal (error)', 0, 1e-6)
    if c['syntide']:
        dt = c['ht'].get('SeaLevelDt', 60.0) * 60
        ix = m.SeaLevelTs.index
        sec = np.array((ix - t0).total_seconds())
        close(np.diff(sec), np.full(len(sec) - 1, dt), 'interval of synthetic tide', 1e-9, 1e-6)
        need(abs(sec[0] / dt - round(sec[0] / dt)) < 1e-9, 'synthetic tide not timed from the start')
        close(m.SeaLevelTs.values, c['ht'].get('MeanSeaLevel', 0.0) + c['ht']['TidalRange'] / 2 * np.sin(2 * np.pi * sec / 44712.0),
              'synthetic tide', 1e-9, 1e-7)
    if c['synflow']:
        sn = c['sn']
        dt = pd.Timedelta(minutes=sn.get('HydrographDt', 60.0))
        hs = t0 - pd.Timedelta(days=c['hstart'] or 0)
        with sut('shotNoise'):
            ref = synth.shotNoise(hs, t1 + dt, dt, pd.Timedelta(days=sn['MeanDaysBetweenEvents']), sn['MeanEventIncrease'],
                                  sn['FastDecayRate'], sn['FastFlowProp'], sn['SlowDecayRate'], pd.Timedelta(days=sn['RisingLimbTime']),
                                  RandomSeed=sn['RandomSeed'])
        ix = m.FlowTs.index
        need(all(t in ref.index for t in ix), 'synthetic flow times differ from those requested')
        close(m.FlowTs.values, ref.reindex(ix).values, 'synthetic flow', 1e-9, 1e-9)
        need(np.all(np.isfinite(m.FlowTs.values)), 'synthetic flow has missing values')
        need(list(ix) == list(ref.index[(ref.index >= ix[0]) & (ref.index <= ix[-1])]), 'synthetic flow has gaps')
    return {'nontrivial': bool(longer or c['synflow'] or c['syntide']),
            'classes': [x for x in ('synflow', 'syntide') if c[x]] + (['coast'] if c['coast'] is not None else []) + (['longer'] if longer else [])}
