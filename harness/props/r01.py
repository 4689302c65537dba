"""R01 steady backwater profile."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *

ID = 'R01'
RULE = ('random channels of 2-14 cross-sections (steep/adverse/stepped beds, width jumps, uneven spacing), flow, level and '
        'roughness; non-trivial = both subcritical and critical sections, or a bed/width jump')
N = {'quick': 4000, 'thorough': 150000}


def strategy(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(2, 14))
        dx0 = draw(pick(20.0, 5.0, 100.0))
        slope = draw(pick(0.002, 0.0, 0.02, -0.003, 0.08, -0.02))
        jump = draw(pick(0.0, 0.05, 0.5, 2.5))
        rough = draw(sfls(jump, n, 499)) if jump else [0.0] * n
        z0 = draw(sfl(2.0, 200))
        w = draw(pick(0, 1, 2))
        W0 = draw(logf(1.5, 300.0))
        if w == 0:
            W = [W0] * n
        else:
            W = [W0 * math.exp((0.3 if w == 1 else 2.0) * v) for v in draw(sfls(1.0, n, 499))]
        even = draw(st.booleans())
        dx = [dx0] * (n - 1) if even else [dx0 * v for v in draw(fls(0.3, 2.0, n - 1, 500))]
        z = [z0 + rough[i] + slope * dx0 * (n - 1 - i) for i in range(n)]
        return {'z': z, 'W': W, 'dx': dx, 'Q': draw(logf(0.05, 800.0)), 'n': draw(pick(0.04, 0.02, 0.1, 0.01)),
                'lev': draw(sfl(6.0, 600)), 'beta': draw(pick(1.0, 1.05, 1.2)),
                'tol': draw(pick(1e-3, 1e-5, 1e-8)), 'maxit': 60, 'arr': draw(st.booleans())}
    return s()


def check(c):
    from hapuamod import riv
    G = 9.81
    z, W, dx = (np.array(c[k], float) for k in ('z', 'W', 'dx'))
    N_ = z.size
    Q, nm, B = c['Q'], c['n'], c['beta']
    keep = [a.copy() for a in (z, W, dx)]
    num = {'Beta': B, 'ErrTol': c['tol'], 'MaxIt': c['maxit'], 'Theta': 0.6}
    q = np.array([Q]) if c['arr'] else Q
    lev = np.array([c['lev']]) if c['arr'] else c['lev']
    with sut('steady hydraulics'):
        h, v = riv.solveSteady(dx, z, W, nm, q, lev, num)
    for a, k in zip((z, W, dx), keep):
        need(np.array_equal(a, k), 'steady hydraulics modified its inputs')
    need(h.shape == (N_,) and v.shape == (N_,), 'unexpected shape')
    finite(h, 'depth')
    finite(v, 'velocity')
    close(h * v * W, np.full(N_, Q), 'discharge', 1e-9, 1e-9)
    hc = (Q ** 2 / (W ** 2 * G)) ** (1 / 3)
    need(np.all(h >= hc * (1 - 1e-9)), 'supercritical depth %.6g (critical %.6g)', float(np.min(h / hc)), 1.0)
    close(h[-1], max(c['lev'] - z[-1], hc[-1]), 'downstream depth', 1e-9, 1e-9)
    crit = 0
    for i in range(N_ - 2, -1, -1):
        sf1 = v[i + 1] ** 2 * nm ** 2 / h[i + 1] ** (4 / 3)
        e1 = z[i + 1] + h[i + 1] + B * v[i + 1] ** 2 / (2 * G)

        def f(x):
            u = Q / (W[i] * x)
            return z[i] + x + B * u ** 2 / (2 * G) - e1 - 0.5 * dx[i] * (sf1 + u ** 2 * nm ** 2 / x ** (4 / 3))
        scale = abs(z[i]) + hc[i] + abs(e1) + dx[i] * sf1 + hc[i]
        fc = f(hc[i])
        if abs(fc) <= 1e-9 * (1 + scale):
            continue
        if fc >= 0:
            crit += 1
            need(abs(h[i] - hc[i]) <= 1e-9 * (1 + hc[i]),
                 'no subcritical solution at cross-section %d but depth %.9g is not critical (%.9g)', i, h[i], hc[i])
        else:
            r = f(h[i])
            need(abs(r) <= c['tol'] + 1e-9 * (1 + scale), 'energy balance not met at cross-section %d: error %.3g m', i, r)
    return {'nontrivial': 0 < crit < N_ - 1 or np.ptp(W) > 0,
            'classes': (['critical'] if crit else []) + (['subcritical'] if crit < N_ - 1 else []) +
                       (['level-below-critical'] if c['lev'] - z[-1] < hc[-1] else [])}
