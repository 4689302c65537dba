"""C02 runup and overtopping flux and its crest/backshore split."""
import numpy as np
from hypothesis import strategies as st
from core import *

ID = 'C02'
RULE = ('random 1-14 transects mixing no lagoon / lagoon / channel / zero-width channel (channels with and without lagoon), crest heights around the '
        'runup level; non-trivial = some transect overtopped and some not, or both split outcomes present')
N = {'quick': 4000, 'thorough': 120000}


def strategy(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 14))
        return {'T': draw(fl(0.0, 20.0)), 'Hs': draw(fl(0.0, 8.0)), 'slope': draw(fl(0.01, 0.9)),
                'R': draw(fl(0.0, 6.0)), 'sl': draw(sfl(2.0)),
                'kind': draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
                'z': draw(fls(0.5, 8.0, n, 997)), 'w': draw(fls(0.5, 120.0, n, 991)),
                'c': draw(fls(0.5, 40.0, n)), 'l': draw(fls(0.5, 80.0, n)), 'y': draw(sfls(60.0, n)),
                'coef': draw(pick(0.0002, 0.00015, 0.01, 0.0)), 'exp': draw(pick(1.0, 1.5, 2.0, 3.0)),
                'bs': draw(fl(-0.02, 0.1, 120)), 'bi': draw(fl(0.0, 5.0, 50))}
    return s()


def check(c):
    from hapuamod import coast
    n = len(c['kind'])
    with sut('runup'):
        r = coast.runup(c['T'], c['Hs'], c['slope'])
        ra = coast.runup(np.array([c['T'], 2 * c['T']]), c['Hs'], c['slope'])
    want = 0.49 * c['slope'] ** 0.5 * c['T'] * c['Hs']
    close(r, want, 'runup', 1e-10, 1e-12)
    close(ra, [want, 2 * want], 'runup of array', 1e-10, 1e-12)
    Y = np.full((n, 5), np.nan)
    Z = np.full((n, 4), np.nan)
    cst, ow, amb = [], [], False
    for i in range(n):
        k = c['kind'][i]
        y0 = c['y'][i]
        Y[i, 0] = y0
        Z[i, 0] = c['z'][i]
        Z[i, 3] = -1.0
        width = c['w'][i]
        chan = k >= 3
        lagoon = k == 1 or (k >= 3 and c['l'][i] > 25.0)   # a channel with or without lagoon behind it
        if chan:
            cw = 0.0 if k == 4 else c['c'][i]
            if k == 5 and c['c'][i] > 30:
                cw = -0.5   # overwash overshot a closing channel
            Y[i, 1] = y0 - width
            Y[i, 2] = Y[i, 1] - cw
            Y[i, 3] = Y[i, 2] - 5.0
            Z[i, 1] = -0.5
            Z[i, 2] = c['z'][i] + 1.5
        else:
            Y[i, 3] = y0 - width
        Y[i, 4] = Y[i, 3] - (c['l'][i] if lagoon else 0.0)
        if k == 2:
            Y[i, 4] = Y[i, 3] + 0.25   # cliff in front of the lagoon edge: no lagoon either
        ot = max(c['R'] + c['sl'] - c['z'][i], 0.0)
        cst.append(c['coef'] * ot ** c['exp'])
        if chan and Y[i, 1] <= Y[i, 2]:
            ow.append(1.0)
        elif (not chan) and Y[i, 3] <= Y[i, 4]:
            ow.append(0.0)
        else:
            w = (Y[i, 0] - Y[i, 1]) if chan else max(Y[i, 0] - Y[i, 3], 0.001)
            thr = w * c['bs'] + c['bi']
            if abs(thr - Z[i, 0]) < 1e-9:
                amb = True
            ow.append(1.0 if Z[i, 0] > thr else 0.0)
    if amb:
        raise Discard
    pp = {'OT_coef': c['coef'], 'OT_exp': c['exp'], 'BarRatSlope': c['bs'], 'BarRatInt': c['bi']}
    keep = (Y.copy(), Z.copy())
    with sut('overtopping'):
        gc, gp = coast.overtopping(c['R'], c['sl'], Y, Z, pp)
    close(gc, cst, 'overtopping flux', 1e-10, 1e-15)
    close(np.asarray(gp, float), ow, 'overwash proportion', 0, 0)
    need(np.array_equal(keep[0], Y, equal_nan=True) and np.array_equal(keep[1], Z, equal_nan=True),
         'overtopping calculation modified the morphology')
    a = np.array(cst) > 0
    return {'nontrivial': (a.any() and not a.all()) or (0 in ow and 1 in ow),
            'classes': (['overtopped'] if a.any() else []) + (['overwash'] if 1 in ow else []) +
                       (['zero-width'] if 4 in c['kind'] else [])}
