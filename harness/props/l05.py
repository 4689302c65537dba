"""L05 derived parameters and boundary interpolation."""
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl

ID = 'L05'
RULE = ('random physical parameters (derived coefficients) or random irregular series and request times (interpolation); '
        'non-trivial = derived case, or a request time strictly between data points')
N = {'quick': 2400, 'thorough': 60000}


def strategy(tier):
    @st.composite
    def s(draw):
        if draw(st.integers(0, 3)) == 0:
            return {'mode': 'derived', 'K': draw(fl(0.0, 2.0)), 'sed': draw(fl(1500.0, 3500.0)), 'sea': draw(fl(990.0, 1060.0)),
                    'g': draw(fl(5.0, 15.0)), 'v': draw(fl(0.0, 0.9)), 'gam': draw(fl(0.2, 1.5)),
                    'tbh': draw(fl(0.0, 10.0)), 'bte': draw(fl(0.0, 6.0)), 'tbw': draw(fl(5.0, 200.0)), 'sw': draw(fl(0.0, 100.0))}
        n = draw(st.integers(1, 30))
        gaps = draw(st.lists(st.one_of(pick(1, 60, 900, 3600), st.integers(1, 200000)), min_size=n, max_size=n))
        nq = draw(st.integers(1, 12))
        many = draw(st.integers(0, 9)) == 0
        if many and draw(st.booleans()):
            gaps = gaps[:2]
            n = len(gaps)
        return {'mode': 'interp', 'many': [draw(st.integers(100, 900)), draw(st.integers(0, 40)), draw(st.booleans())] if many else None, 'gaps': gaps, 'start': draw(st.integers(0, 10 ** 9)), 'cols': draw(st.integers(0, 4)),
                'v': draw(sfls(1000.0, (n + 1) * 5)), 'nan': draw(st.booleans()),
                'q': draw(st.lists(st.one_of(st.tuples(pick('at'), st.integers(0, 40)),
                                             st.tuples(pick('in'), st.integers(0, 1000))), min_size=nq, max_size=nq)),
                'ms': draw(pick(0, 0, 1))}
    return s()


def check(c):
    import pandas as pd
    if c['mode'] == 'derived':
        return derived(c)
    from hapuamod import core
    off = np.concatenate([[0], np.cumsum(c['gaps'])]).astype('int64')          # seconds
    ix = pd.DatetimeIndex(pd.Timestamp('1990-01-01') + pd.to_timedelta(c['start'] + off, unit='s'))
    n = len(ix)
    v = np.array(c['v']).reshape(n, 5)
    df = pd.Series(v[:, 0], index=ix, name='Flow') if c['cols'] == 0 else pd.DataFrame(v[:, :c['cols']], index=ix, columns=list('abcd')[:c['cols']])
    qs, between = set(), False
    for kind, k in c['q']:
        if kind == 'at':
            qs.add(int(off[k % n]) * 1000)
        else:
            t = int(off[-1]) * 1000 * k // 1000
            t = t // 1000 * 1000 + (7 if c['ms'] and t + 7 <= off[-1] * 1000 else 0)
            qs.add(t)
    if c['many']:
        # a run of closely spaced times (a long simulation between two data)
        num, k, whole = c['many']
        lo, hi = (0, int(off[-1])) if whole else (int(off[k % (n - 1)]), int(off[k % (n - 1) + 1]))
        step = max(1, (hi - lo) // num)
        qs |= {1000 * t for t in range(lo, hi, step)}
    qs = sorted(qs)
    between = any(q % 1000 or q // 1000 not in set(off.tolist()) for q in qs)
    qi = pd.DatetimeIndex([ix[0] + pd.Timedelta(milliseconds=q) for q in qs])
    keep = df.copy()
    with sut('interpolate_at'):
        r = core.interpolate_at(df, qi)
    need(df.equals(keep), 'interpolation changed the boundary series')
    need(list(r.index) == list(qi), 'interpolated at times %s, requested %s', list(r.index)[:4], list(qi)[:4])
    q = np.array(qs) / 1000.0
    W = np.stack([lin(q, off, v[:, j]) for j in range(5)], axis=1)
    got = np.asarray(r.values, float)
    want = W[:, 0] if c['cols'] == 0 else W[:, :c['cols']]
    # times are held to about a quarter of a microsecond
    tol = 1e-9 + 1e-6 * float(np.max(np.abs(np.diff(v, axis=0)) / np.diff(off)[:, None]))
    close(got, want, 'interpolated boundary values', 1e-9, tol)
    if c['cols'] and not c['ms']:
        need(list(r.columns) == list(df.columns), 'columns changed')
    # one at a time gives the same values
    for i in (0, len(qs) // 2, len(qs) - 1):
        with sut('interpolate_at (single)'):
            one = core.interpolate_at(df, qi[i:i + 1])
        close(np.asarray(one.values, float)[0], got[i], 'value at %s requested alone' % qi[i], 1e-12, tol)
    # data beyond the bracketing interval are irrelevant
    a = np.flatnonzero(off <= qs[0] / 1000.0)[-1]
    b = np.flatnonzero(off >= qs[-1] / 1000.0)[0]
    d2 = df.copy()
    junk = np.nan if c['nan'] else 1e9
    d2.iloc[:a] = junk
    d2.iloc[b + 1:] = junk
    with sut('interpolate_at (other data outside)'):
        r2 = core.interpolate_at(d2, qi)
        r3 = core.interpolate_at(df.iloc[a:b + 1], qi)
    close(np.asarray(r2.values, float), got, 'values with different data outside the interval', 1e-12, tol)
    close(np.asarray(r3.values, float), got, 'values with no data outside the interval', 1e-12, tol)
    return {'nontrivial': between, 'classes': ['interp', 'frame' if c['cols'] else 'series']}


def lin(q, t, v):
    out = []
    for x in q:
        k = int(np.searchsorted(t, x, side='right')) - 1
        if k >= len(t) - 1:
            out.append(v[-1])
        else:
            f = (x - t[k]) / (t[k + 1] - t[k])
            out.append(v[k] * (1 - f) + v[k + 1] * f)
    return np.array(out)


def derived(c):
    import pandas as pd
    if abs(c['tbw'] - c['sw']) < 1e-3:
        raise Discard()
    cfg = cl.base()
    cl.put(cfg, 'PhysicalParameters', Kcoef=c['K'], RhoSed=c['sed'], RhoSea=c['sea'], Gravity=c['g'], VoidRatio=c['v'], GammaRatio=c['gam'],
           TargetBarHeight=c['tbh'], BeachTopElev=c['bte'], TargetBarWidth=c['tbw'], SpitWidth=c['sw'])
    with cl.folder('l05') as d:
        cl.plain_series(d, pd.Timestamp('2001-02-03'), pd.Timestamp('2001-02-05'))
        m = cl.load(cl.write(d, cfg))
    P = m.PhysicalPars
    close(P['K2coef'], c['K'] / ((c['sed'] - c['sea']) * c['g'] * (1 - c['v'])), 'longshore coefficient', 1e-9, 0)
    close(P['BreakerCoef'], 8.0 / (c['sea'] * c['g'] ** 1.5 * c['gam'] ** 2), 'breaking coefficient', 1e-9, 0)
    sl = (c['tbh'] - c['bte']) / (c['tbw'] - c['sw'])
    # the height/width relation passes through the spit and the target barrier
    close(P['BarRatSlope'], sl, 'barrier height/width slope', 1e-9, 1e-12)
    close(P['BarRatInt'] + P['BarRatSlope'] * c['sw'], c['bte'], 'barrier height at spit width', 1e-9, 1e-9 * (1 + abs(sl) * 200))
    close(P['BarRatInt'] + P['BarRatSlope'] * c['tbw'], c['tbh'], 'barrier height at target width', 1e-9, 1e-9 * (1 + abs(sl) * 200))
    return {'nontrivial': True, 'classes': ['derived']}
