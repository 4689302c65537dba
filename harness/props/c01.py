"""C01 longshore transport: CERC formula with refraction to breaking, segment by segment."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *

ID = 'C01'
RULE = ('random shorelines of 2-15 transects with slopes up to +/-70 degrees, wave directions over the full circle, '
        'power 0..1e6 W/m, periods 2..20 s, random sediment/water/breaking parameters; non-trivial = some segment '
        'has non-zero transport and the shoreline is not straight')
N = {'quick': 3000, 'thorough': 100000}


def strategy(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(2, 15))
        dx = draw(pick(5.0, 10.0, 20.0, 25.0, 50.0, 12.5))
        return {'dx': dx,
                'y': draw(sfls(draw(pick(0.05, 0.5, 2.0)) * dx, n, 1000)),
                'off': draw(sfl(300.0)),
                'power': draw(st.one_of(fl(0.0, 20000.0), logf(1.0, 1e6), pick(0.0))),
                'T': draw(fl(2.0, 20.0)), 'L': draw(fl(6.0, 300.0)),
                'e': draw(st.one_of(sfl(math.pi / 2), sfl(math.pi))),
                'rhos': draw(fl(1500.0, 3000.0, 100)), 'rho': draw(fl(990.0, 1040.0, 100)),
                'g': draw(pick(9.81, 9.8, 3.7)), 'void': draw(fl(0.0, 0.8, 80)), 'gam': draw(fl(0.3, 1.2, 90)),
                'K': draw(fl(0.0, 0.5, 100)), 'd': draw(fl(1.0, 30.0, 290))}
    return s()


def pars(c):
    return {'Kcoef': c['K'], 'RhoSed': c['rhos'], 'RhoSea': c['rho'], 'Gravity': c['g'], 'VoidRatio': c['void'],
            'GammaRatio': c['gam'], 'WaveDataDepth': c['d'],
            'K2coef': c['K'] / ((c['rhos'] - c['rho']) * c['g'] * (1 - c['void'])),
            'BreakerCoef': 8.0 / (c['rho'] * c['g'] ** 1.5 * c['gam'] ** 2)}


def ref(c, y, e):
    p = pars(c)
    hb = (8.0 * c['power'] / (c['rho'] * c['g'] ** 1.5 * c['gam'] ** 2)) ** 0.4
    cb = math.sqrt(c['g'] * hb)
    ch = c['g'] * c['T'] / (2 * math.pi) * math.tanh(2 * math.pi * c['d'] / c['L'])
    out = []
    for i in range(len(y) - 1):
        rel = e - math.atan2(y[i] - y[i + 1], c['dx'])
        if abs(rel) > math.pi / 2:
            out.append(0.0)
        else:
            sb = max(-1.0, min(1.0, math.sin(rel) * cb / ch))
            out.append(-p['K2coef'] * c['power'] * math.cos(rel) * sb)
    return np.array(out)


def check(c):
    from hapuamod import coast
    y = [v + c['off'] for v in c['y']]

    def run(yy, e):
        sy = np.full((len(yy), 5), np.nan)
        sy[:, 0] = yy
        sy[:, 3] = -100.0
        sy[:, 4] = -120.0
        keep = sy.copy()
        with sut('longshore transport'):
            r = coast.longShoreTransport(sy, c['dx'], c['power'], c['T'], c['L'], e, pars(c))
        need(np.array_equal(keep, sy, equal_nan=True), 'longshore transport modified the shoreline')
        return np.asarray(r, float)
    want = ref(c, y, c['e'])
    scale = max(1e-12, abs(pars(c)['K2coef'] * c['power']))
    got = run(y, c['e'])
    close(got, want, 'longshore transport', 1e-8, 1e-9 * scale)
    # mirror image of the coast and the waves: same rates, opposite direction
    mir = run(y[::-1], -c['e'])
    close(mir, -want[::-1], 'longshore transport of mirrored coast', 1e-8, 1e-9 * scale)
    nz = int(np.sum(np.abs(want) > 0))
    return {'nontrivial': nz > 0 and len(set(y)) > 1,
            'classes': (['left'] if np.any(want < 0) else []) + (['right'] if np.any(want > 0) else []) +
                       (['offshore-directed'] if c['power'] > 0 and nz < len(want) else [])}
