"""Generators of model states (geometry, hydraulics, forcing) shared by several properties."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *

NAN = None


def physical(draw, **over):
    p = {'RhoSed': 2650.0, 'RhoSea': 1025.0, 'RhoRiv': 1000.0, 'VoidRatio': 0.4, 'Gravity': 9.81,
         'GammaRatio': 0.5, 'WaveDataDepth': 10.0, 'Kcoef': 0.017,
         'ClosureDepth': draw(pick(5.0, 3.0, 8.0)), 'BeachSlope': 0.13,
         'GrainSize': 0.018, 'CritShieldsStress': 0.0495, 'MPM_coef': 3.97, 'MPM_exp': 1.5,
         'RiverWidth': draw(pick(100.0, 40.0, 70.0)), 'RoughnessManning': 0.04, 'GrainRoughness': 0.035,
         'WidthDepthRatio': draw(pick(30.0, 5.0, 12.0, 200.0)),
         'BackshoreElev': draw(pick(10.0, 8.0, 14.0)), 'MaxOutletElev': draw(pick(-2.0, -1.5, -3.0)),
         'OT_coef': 0.00015, 'OT_exp': 2.0, 'BeachTopElev': draw(pick(2.0, 2.5, 3.0)),
         'SpitWidth': draw(pick(10.0, 5.0, 15.0)), 'TargetBarHeight': 5.5, 'TargetBarWidth': 90.0,
         'MinOutletWidth': draw(pick(1.0, 2.0, 0.5)),
         'OutletSedSpreadDist': draw(pick(100.0, 45.0, 250.0)), 'OutletBankEroFac': draw(pick(0.5, 0.0, 1.0, 0.3)),
         'BarrierPermeability': draw(pick(0.001, 0.0, 0.01)), 'ShorelineErosionRate': draw(pick(0.0, 0.5, -0.3))}
    p['K2coef'] = p['Kcoef'] / ((p['RhoSed'] - p['RhoSea']) * p['Gravity'] * (1 - p['VoidRatio']))
    p['BreakerCoef'] = 8.0 / (p['RhoSea'] * p['Gravity'] ** 1.5 * p['GammaRatio'] ** 2)
    p['BarRatSlope'] = (p['TargetBarHeight'] - p['BeachTopElev']) / (p['TargetBarWidth'] - p['SpitWidth'])
    p['BarRatInt'] = p['BeachTopElev'] - p['BarRatSlope'] * p['SpitWidth']
    p.update(over)
    return p


def geometry(draw, mode='any', thin=0.25, relics=True, nmax=9, gaps=True, at_river=True, straight_only=False):
    """A valid model geometry. mode: 'open' | 'closed' | 'any'.  thin: share of near-critical gaps."""
    p = physical(draw)
    dx = draw(pick(20.0, 10.0, 25.0, 12.5, 33.3, 16.6))
    nl, nr = draw(st.integers(4, nmax)), draw(st.integers(4, nmax))
    n = nl + nr + 1
    X = [dx * k for k in range(-nl, nr + 1)]
    x0 = nl
    minw = p['MinOutletWidth']
    th = int(round(thin * 100))

    def gaps_(hi, lo=0.3):
        u = draw(ints(n, 999))
        t = draw(ints(n, 99))
        return [(0.002 + 0.15 * v / 999.0) if q >= 100 - th else lo + (hi - lo) * v / 999.0 for v, q in zip(u, t)]
    crest = gaps_(70.0)
    inner = gaps_(40.0)
    chanw = [minw + 0.05 + v for v in gaps_(30.0, 0.5)]
    lagw = [minw + 0.02 + v for v in gaps_(60.0, 0.5)]
    base = draw(sfl(60.0, 300))
    jit = draw(sfls(draw(pick(0.5, 4.0, 15.0)), n, 997))
    y0 = [base + v for v in jit]
    zc = draw(fls(1.5, 6.5, n, 500))
    zi = draw(fls(1.5, 6.5, n, 500))
    zb = draw(fls(-2.0, 0.4, n, 480))
    zl = draw(fls(-2.0, 0.4, n, 480))
    closed = mode == 'closed' or (mode == 'any' and draw(st.integers(0, 3)) == 0)

    # lagoon extent (always includes the river)
    la, lb = draw(st.integers(1, x0)), draw(st.integers(x0, n - 2))
    wet = [la <= i <= lb for i in range(n)]
    # outlet: upstream transect within the lagoon, direction and length
    us = draw(st.integers(la, lb))
    if not at_river and us == x0:
        us = x0 + 1 if lb > x0 else us
    d = 1 if draw(st.booleans()) else -1
    room = (n - 2 - us) if d > 0 else (us - 1)
    k = draw(st.integers(0, max(0, min(4, room))))
    if straight_only:
        k = 0
    ds = us + d * k
    frac = 0.0
    if (d > 0 and ds < n - 2) or (d < 0 and ds > 1):
        frac = draw(st.one_of(pick(0.5, 0.25, 0.999, 0.001), fl(0.0, 0.999, 333)))
    oex = [X[us], X[ds] + d * frac * dx]
    chan = list(range(us, ds + d, d))
    has = [False] * n
    for i in chan:
        has[i] = True
    if gaps:
        # beyond the outlet the lagoon may be narrow, closed or continue in disconnected patches
        online = set(range(min(x0, us), max(x0, us) + 1))
        g = draw(ints(n, 9))
        for i in range(n):
            if i in online or i in (0, n - 1):
                continue
            if g[i] == 9:
                wet[i] = not wet[i]
            elif g[i] == 8:
                lagw[i] = 0.3 * minw
    relic = [False] * n
    if relics:
        r = draw(ints(n, 9))
        dens = draw(pick(0, 1, 3, 6))
        for i in range(2, n - 2):
            if not has[i] and r[i] >= 10 - dens:
                has[i] = relic[i] = True
        w = draw(ints(n, 5))
        for i in range(n):
            if relic[i] or (closed and has[i]):
                if w[i] == 5:
                    chanw[i] = 0.0
                elif w[i] == 4:
                    chanw[i] = 0.4 * minw
                elif w[i] == 3:
                    chanw[i] = 0.01
    connected = True
    if closed:
        connected = draw(st.booleans())
        if not connected:
            oex[0] = NAN
    Y, Z = [], []
    for i in range(n):
        yc = y0[i] - crest[i]
        if has[i]:
            y1, y2 = yc, yc - chanw[i]
            y3 = y2 - inner[i]
            Z.append([zc[i], zb[i], max(zi[i], zb[i] + 0.3), zl[i]])
        else:
            y1 = y2 = NAN
            y3 = yc
            Z.append([zc[i], NAN, NAN, zl[i]])
        y4 = y3 - (lagw[i] if (wet[i] or i == x0) else 0.0)
        Y.append([y0[i], y1, y2, y3, y4])
    return {'dx': dx, 'X': X, 'Y': Y, 'Z': Z, 'oex': oex, 'oew': draw(fl(minw + 0.1, 40.0, 400)),
            'oee': draw(fl(-2.5, 0.5, 300)), 'closed': closed, 'pars': p, 'x0': x0,
            'us': us, 'chan0': [] if closed else chan}


def hydraulics(draw, g):
    """Depths and velocities everywhere the model stores them (None where it has none)."""
    n = len(g['X'])
    nriv = draw(st.integers(2, 5))
    slope = draw(pick(0.003, 0.0, 0.01))
    zr = g['Z'][g['x0']][3]
    riv = [zr + slope * g['dx'] * (nriv - i) for i in range(nriv)]
    top = draw(st.one_of(fl(0.2, 3.5, 330), fl(0.2, 1.5, 130)))
    ripple = draw(sfls(draw(pick(0.01, 0.2, 0.8)), n, 499))
    lwl = [max(g['Z'][i][3] + 0.05, top + ripple[i]) for i in range(n)]
    g['riv'] = riv
    g['rdep'] = [max(0.2, top + 0.05 * (nriv - i) - riv[i]) for i in range(nriv)]
    g['rvel'] = draw(fls(0.1, 2.0, nriv))
    g['lwl'] = lwl
    g['lvel'] = draw(sfls(1.5, n))
    od = draw(fls(0.2, 3.0, n, 280))
    ov = draw(sfls(2.5, n))
    g['odep'] = [od[i] if i in g['chan0'] else None for i in range(n)]
    g['ovel'] = [ov[i] if i in g['chan0'] else None for i in range(n)]
    g['oedep'] = [draw(fl(0.2, 3.0, 280)), draw(fl(0.5, 3.0, 250))] if not g['closed'] else [None, None]
    g['oevel'] = [draw(sfl(2.0)), draw(sfl(2.0))] if not g['closed'] else [None, None]
    return g


def numeric(draw):
    return {'MaxMorChange': draw(pick(0.1, 0.5, 0.02, 3.0))}


def times(draw):
    dtmin = draw(pick(15.0, 5.0, 60.0))
    kmax = draw(st.integers(0, 8))
    k = draw(st.integers(0, kmax))
    extra = draw(pick(0.0, 0.0, 0.7))   # MorDtMax need not be a power of two multiple
    return dtmin, dtmin * 2 ** kmax * (1 + extra), dtmin * 2 ** k


def forcing(draw, s, nodes, quiet=None):
    """Bedload per reach, longshore and cross-shore transport."""
    n = len(s['X'])
    q = draw(st.integers(0, 9)) if quiet is None else quiet
    sc = draw(pick(0.3, 0.01, 3.0)) if q < 7 else 0.0
    s['bed'] = draw(sfls(sc, nodes - 1, 499)) if sc else [0.0] * (nodes - 1)
    if draw(st.booleans()):
        s['bed'] = [abs(v) for v in s['bed']]
    sc = draw(pick(0.05, 0.3, 2.0)) if q not in (5, 7, 8) else 0.0
    s['lst'] = draw(sfls(sc, n - 1, 499)) if sc else [0.0] * (n - 1)
    if draw(st.booleans()):
        sg = draw(pick(1, -1))
        s['lst'] = [sg * abs(v) for v in s['lst']]
    sc = draw(pick(0.01, 0.1, 0.0)) if q not in (6, 7, 9) else 0.0
    s['cst'] = draw(fls(0.0, sc, n, 499)) if sc else [0.0] * n
    s['ow'] = [float(v) for v in draw(ints(n, 1))]
    if draw(st.integers(0, 4)):
        # the overtopping routine never overwashes where there is neither lagoon nor channel
        s['ow'] = [v if (y[1] is not None or y[3] > y[4]) else 0.0 for v, y in zip(s['ow'], s['Y'])]
    return s


def clean(s):
    """JSON case -> numeric state (None -> nan)."""
    nan = float('nan')

    def f(v):
        if v is None:
            return nan
        if isinstance(v, list):
            return [f(w) for w in v]
        return v
    out = {}
    for k, v in s.items():
        out[k] = f(v) if not isinstance(v, (dict, bool)) else v
    return out
