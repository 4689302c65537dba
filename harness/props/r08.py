"""R08 bedload transport: Meyer-Peter-Muller at nodes, upwinded to reaches."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *

ID = 'R08'
RULE = ('random channels of 2-20 nodes, depths 0.01..6 m, velocities -4..4 m/s, random sediment parameters and '
        'weighting; non-trivial = some reach has transport and some node is below the threshold or flows reverse')
N = {'quick': 4000, 'thorough': 120000}


def strategy(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(2, 20))
        return {'z': draw(sfls(3.0, n)), 'B': draw(fls(0.5, 200.0, n)), 'h': draw(fls(0.01, 6.0, n)),
                'V': draw(sfls(draw(pick(0.5, 2.0, 4.0)), n)), 'dx': draw(fls(1.0, 60.0, n - 1)),
                'rho': draw(fl(990, 1030, 40)), 'rhos': draw(fl(1800, 3000, 100)), 'g': draw(pick(9.81, 9.8, 3.7)),
                'D': draw(logf(0.0005, 0.2)), 'nn': draw(fl(0.01, 0.08, 70)), 'tc': draw(fl(0.0, 0.1, 100)),
                'mc': draw(pick(3.97, 8.0, 1.0)), 'me': draw(pick(1.5, 1.0, 2.0)), 'void': draw(fl(0.0, 0.8, 80)),
                'psi': draw(pick(0.0, 0.4, 0.5, 0.25))}
    return s()


def check(c):
    from hapuamod import riv
    z, B, h, V, dx = (np.array(c[k], float) for k in ('z', 'B', 'h', 'V', 'dx'))
    node = []
    for i in range(len(z)):
        sf = V[i] ** 2 * c['nn'] ** 2 / h[i] ** (4 / 3)
        th = c['rho'] * c['g'] * h[i] * sf / ((c['rhos'] - c['rho']) * c['g'] * c['D'])
        qs = c['mc'] * max(th - c['tc'], 0.0) ** c['me'] * math.sqrt((c['rhos'] / c['rho'] - 1) * c['g'] * c['D'] ** 3)
        node.append(math.copysign(1.0, V[i]) * qs * B[i] / (1 - c['void']))
    want = [(1 - c['psi']) * node[i] + c['psi'] * node[i + 1] for i in range(len(z) - 1)]
    pp = {'RhoRiv': c['rho'], 'RhoSed': c['rhos'], 'Gravity': c['g'], 'GrainSize': c['D'], 'GrainRoughness': c['nn'],
          'CritShieldsStress': c['tc'], 'MPM_coef': c['mc'], 'MPM_exp': c['me'], 'VoidRatio': c['void'],
          'RoughnessManning': 0.2}
    keep = [a.copy() for a in (z, B, h, V, dx)]
    with sut('bedload'):
        got = riv.calcBedload(z, B, h, V, dx, pp, c['psi'])
        rev = riv.calcBedload(z[::-1].copy(), B[::-1].copy(), h[::-1].copy(), -V[::-1], dx[::-1].copy(), pp, 1 - c['psi'])
    scale = max(1e-12, max(abs(v) for v in node))
    close(got, want, 'reach bedload', 1e-8, 1e-10 * scale)
    close(rev, [-v for v in want[::-1]], 'bedload of reversed channel', 1e-8, 1e-10 * scale)
    need(all(np.array_equal(a, b) for a, b in zip(keep, (z, B, h, V, dx))), 'bedload calculation modified its inputs')
    moving = sum(1 for v in node if v != 0)
    return {'nontrivial': 0 < moving and (moving < len(node) or (min(node) < 0 < max(node))),
            'classes': (['reverse'] if min(node) < 0 else []) + (['moving'] if moving else [])}
