"""S01 synthetic river flow (shot noise)."""
import math
import random
import bisect
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import *

ID = 'S01'
RULE = ('random event rates from far apart to many within one rising limb, first and second order decay, output intervals from '
        'fine to coarse, start at any time of day; non-trivial = at least two events fall in the period')
N = {'quick': 320, 'thorough': 9000}


def strategy(tier):
    @st.composite
    def s(draw):
        dt = draw(pick(60, 15, 5, 30, 360, 1440, 20)) * 60.0
        nout = draw(st.integers(2, 60))
        rise = draw(pick(0.1, 0.5, 2.0, 12.0, 0.01)) * draw(pick(1.0, 3.0)) * 3600
        if draw(st.integers(0, 3)) == 0:    # long limbs well apart
            nout, rise = 60, dt * draw(fl(4.5, 9.0))
        gap = draw(pick(0.2, 1.0, 5.0, 30.0)) * max(dt * nout / 10, draw(pick(0.0, 1.0)) * rise)
        slow = draw(st.integers(0, 2)) == 0
        if slow:    # long limbs some of which overlap, little recession meanwhile
            nout, rise = 60, dt * draw(fl(4.5, 12.0))
            gap = rise * draw(fl(0.5, 2.0))
        return {'start': draw(st.integers(0, 2 * 86400 - 1)), 'dt': dt, 'dur': dt * (nout + draw(fl(0.0, 0.99))), 'gap': gap,
                'mean': draw(logf(1.0, 500.0)), 'd1': draw(logf(0.02, 20.0)) if not slow else 864.0 / rise * draw(logf(0.01, 1.0)),
                'prop': draw(pick(1.0, 0.9, 0.5, 0.0, 0.2)), 'd2': draw(logf(0.005, 2.0)) if not slow else 864.0 / rise * draw(logf(0.01, 1.0)), 'rise': rise,
                'seed': draw(st.integers(0, 10 ** 6)), 'scale': draw(pick(2.0, 0.1, 7.0)), 'days': draw(st.integers(1, 400)),
                'calc': draw(pick(None, None, 0.5, 0.1)), 'more': draw(fl(0.1, 3.0, 29))}
    return s()


T0 = pd.Timestamp(2019, 3, 1)


def td(x):
    return pd.Timedelta(seconds=x)


def gen_(c, what='generating flow series', **o):
    from hapuamod import synth
    c = dict(c, **o)
    start = T0 + td(c['start'])
    with sut(what):
        k = {} if c['calc'] is None else {'CalcTimeInt': td(c['calc'] * c['dt'])}
        if c['prop'] < 1:
            k.update(PropRate1=c['prop'], DecayRate2=c['d2'])
        return synth.shotNoise(start, start + td(c['dur']), td(c['dt']), td(c['gap']), c['mean'], c['d1'],
                               RisingLimbTime=td(c['rise']), RandomSeed=c['seed'], **k)


def process(c):
    """Event times (s after start), sizes and the flow right after each (two decaying components)."""
    r = random.Random(c['seed'])
    lam = 86400.0 / c['gap']
    p = c['prop']
    d1 = c['d1']
    d2 = c['d2'] if p < 1 else d1
    a, b = c['mean'] * p / d1 * lam, c['mean'] * (1 - p) / d2 * lam
    ev = [(0.0, 0.0, a, b)]
    t = 0.0
    while t < c['dur']:
        g = -math.log(r.random()) * c['gap']
        s = -c['mean'] * math.log(1 - r.random())
        a = a * math.exp(-d1 * g / 86400) + s * p
        b = b * math.exp(-d2 * g / 86400) + s * (1 - p)
        t += g
        ev.append((t, s, a, b))
    return ev, d1, d2


def bounds(c, ev, d1, d2, lo, hi):
    """Range the flow can take in lo..hi."""
    def base(t):
        k = bisect.bisect_right([e[0] for e in ev], t) - 1
        k = max(k, 0)
        g = max(t - ev[k][0], 0.0) / 86400
        return ev[k][2] * math.exp(-d1 * g) + ev[k][3] * math.exp(-d2 * g)
    end = ev[-1][0]
    lo, hi = max(lo, 0.0), min(hi, end)
    ts = [lo, hi] + [e[0] for e in ev if lo <= e[0] <= hi] + [e[0] - 1e-3 for e in ev if lo <= e[0] - 1e-3 <= hi]
    R = c['rise']
    low = min(base(t) for t in ts)
    up = max(base(t) + sum(e[1] for e in ev if t - 1e-3 < e[0] <= t + R + 1e-3) for t in
             ts + [t for e in ev for t in (e[0] - R, e[0] - R / 2) if lo <= t <= hi])
    return low, up


def check(c):
    ts = gen_(c)
    start = T0 + td(c['start'])
    dt, dur = c['dt'], c['dur']
    need(isinstance(ts, pd.Series), 'result is not a series')
    v, ix = np.asarray(ts.values, float), ts.index
    finite(v, 'synthetic flow')
    need(np.all(v >= 0), 'negative flow %.9g', float(v.min()))
    need(len(v) > 0 and ix[0] <= start and ix[0] > start - td(dt + c['rise']), 'series starts at %s, model at %s', ix[0] if len(v) else None, start)
    steps = np.diff(ix.values).astype('timedelta64[ns]').astype(float) / 1e9
    need(np.all(np.abs(steps - dt) < 1e-6), 'output times are not %g s apart', dt)
    end = start + td(dur)
    need(ix[-1] <= end and ix[-1] > end - td(dt), 'series ends at %s, period at %s', ix[-1], end)
    ev, d1, d2 = process(c)
    off = [(t - start).total_seconds() for t in ix]
    # intervals holding no calculated point are interpolated from their neighbours
    calc = c['calc'] * dt if c['calc'] else dt / 4
    reach = max(c['rise'], calc) + dt
    for k, t in enumerate(off):
        low, up = bounds(c, ev, d1, d2, t - reach, t + dt + reach)
        tol = 1e-6 * (1 + up)
        need(low - tol <= v[k] <= up + tol, 'flow %.9g at %s outside the range %.9g - %.9g of the process', v[k], ix[k], low, up)
        inside = [e for e in ev if t - reach <= e[0] <= t + dt + reach + c['rise']]
        if not inside or (len(inside) == 1 and inside[0][0] == 0.0 and t > 0):
            # pure recession: bounds are those of the interval itself
            low, up = bounds(c, ev, d1, d2, t, t + dt)
            need(low - tol <= v[k] <= up + tol, 'recession flow %.9g at %s, expected %.9g - %.9g', v[k], ix[k], low, up)
    # isolated rising limbs are straight lines
    limbs = 0
    R = c['rise']
    for j in range(1, len(ev) - 1):
        tk, size = ev[j][0], ev[j][1]
        if R < 4 * dt or max(d1, d2) * dt / 86400 > 0.03 or tk - ev[j - 1][0] < R + 2 * dt or ev[j + 1][0] - tk < R + 2 * dt:
            continue
        g = (tk - R - ev[j - 1][0]) / 86400
        foot = ev[j - 1][2] * math.exp(-d1 * g) + ev[j - 1][3] * math.exp(-d2 * g)
        top = ev[j][2] + ev[j][3]

        def line(t):
            return foot + (top - foot) * min(max((t - tk + R) / R, 0.0), 1.0)
        for k, t in enumerate(off):
            if tk - R + dt <= t and t + 2 * dt <= tk:
                w = [line(t - dt), line(t + 2 * dt)]
                tol = 1e-6 * (1 + top) + 4 * top * max(d1, d2) * max(dt, calc) / 86400
                need(min(w) - tol <= v[k] <= max(w) + tol, 'flow %.9g at %s within a rising limb, expected %.9g - %.9g',
                     v[k], ix[k], min(w), max(w))
                limbs += 1
    # events closer together than the rising limb: their linear rises add up
    crowded = 0
    if R >= 4 * dt and R * max(d1, d2) / 86400 <= 0.02:
        def truth(t):
            k = max(j for j in range(len(ev)) if ev[j][0] <= t)
            g = (t - ev[k][0]) / 86400
            return (ev[k][2] * math.exp(-d1 * g) + ev[k][3] * math.exp(-d2 * g)
                    + sum(e[1] * max(0.0, (t - e[0] + R) / R) for e in ev[k + 1:]))
        groups = []
        for j in range(1, len(ev)):
            if groups and ev[j][0] - ev[j - 1][0] < R and j > 1:
                groups[-1].append(ev[j])
            else:
                groups.append([ev[j]])
        for e in groups:
            first, last = e[0][0] - R, e[-1][0]
            if len(e) < 2 or first < 0:
                continue
            nodes = sorted([x[0] for x in e] + [x[0] - R for x in e])
            for k, t in enumerate(off):
                here = [x for x in nodes if t - 1e-3 < x < t + dt + 1e-3]
                if first < t - 1e-3 and t + dt < last and len(here) == 1 and t < here[0] - 1e-3 and here[0] + 1e-3 < t + dt:
                    want = truth(here[0])
                    tol = 1e-6 * (1 + want) + want * (max(d1, d2) * R / 86400) ** 2 * len(e)
                    need(abs(v[k] - want) <= tol, 'flow %.9g at %s where the limbs of %d events overlap, expected %.9g',
                         v[k], ix[k], len(e), want)
                    crowded = max(crowded, len(e))
    # relations
    same = gen_(c, 'repeating the series')
    need(same.index.equals(ix) and np.array_equal(same.values, v), 'the same seed gives another series')
    k = c['scale']
    b = gen_(c, mean=c['mean'] * k)
    need(b.index.equals(ix), 'scaling events changes output times')
    close(b.values, v * k, 'flows with events %g times as large' % k, 1e-7, 1e-9 * (1 + v.max()))
    b = gen_(c, start=c['start'] + 86400 * c['days'])
    need((b.index - pd.Timedelta(days=c['days'])).equals(ix), 'shifting the period changes relative output times')
    close(b.values, v, 'flows of a shifted period', 1e-7, 1e-9 * (1 + v.max()))
    b = gen_(c, dur=dur * (1 + c['more']))
    keep = [i for i, t in enumerate(off) if t + 2 * dt + 2 * c['rise'] + calc <= dur]
    need(len(b) >= len(v) and b.index[:len(v)].equals(ix), 'a longer period has other output times')
    close(b.values[keep], v[keep], 'flows of a longer period', 1e-7, 1e-9 * (1 + v.max()))
    b = gen_(c, prop=1.0)
    a = gen_(c, prop=0.3, d2=c['d1'])
    close(a.values, b.values, 'two stores with the same rate', 1e-7, 1e-9 * (1 + b.values.max()))
    n = sum(1 for e in ev[1:] if e[0] <= dur)
    g = np.diff([e[0] for e in ev])
    cl = ['limbs-overlap' if np.any(g[1:] < c['rise']) else 'separate', 'second-order' if c['prop'] < 1 else 'first-order']
    if c['rise'] > dt:
        cl.append('limb-longer-than-interval')
    if limbs:
        cl.append('isolated-limb')
    if crowded:
        cl.append('overlapping-pair' if crowded == 2 else 'overlapping-3+')
    return {'nontrivial': n >= 2, 'classes': cl}
