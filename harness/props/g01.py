"""G01 coordinate transforms: inverse of each other, rigid, oriented as documented."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *

ID = 'G01'
RULE = ('random origin (up to 1e7 m), shore-normal bearing over (-2pi..2pi), 1-40 points (scalars, 1-D or '
        '2-D arrays, with missing values); non-trivial = at least two distinct finite points and a bearing '
        'that is not a multiple of 90 degrees')
N = {'quick': 4000, 'thorough': 120000}


def strategy(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 12))
        return {'ox': draw(sfl(1e7, 100000)), 'oy': draw(sfl(1e7, 100000)),
                'b': draw(st.one_of(sfl(2 * math.pi, 5000), pick(0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi))),
                'x': draw(sfls(5000.0, n, 40000)), 'y': draw(sfls(3000.0, n, 40000)),
                'shape': draw(pick('1d', 'scalar', '2d', 'nan')),
                'int': draw(st.booleans())}
    return s()


def check(c):
    from hapuamod import geom
    x, y = np.array(c['x']), np.array(c['y'])
    if c['shape'] == 'scalar':
        x, y = float(x[0]), float(y[0])
    elif c['shape'] == '2d':
        x, y = np.tile(x, (3, 1)).T.copy(), np.tile(y, (3, 1)).T.copy()
        y[:, 1] += 10.0
    elif c['shape'] == 'nan':
        y = y.copy()
        y[0] = np.nan
    origin = np.array([c['ox'], c['oy']])
    b = c['b']
    keep = (np.copy(x), np.copy(y), origin.copy())
    scale = max(abs(c['ox']), abs(c['oy']), 1e4)
    tol = 1e-11 * scale + 1e-8
    # +Y points along the bearing (clockwise from north), +X to its right
    we = c['ox'] + x * math.sin(b + math.pi / 2) + y * math.sin(b)
    wn = c['oy'] + x * math.cos(b + math.pi / 2) + y * math.cos(b)
    with sut('model to real conversion'):
        e, n = geom.mod2real(x, y, origin, b)
    close(e, we, 'easting of model point', 0, tol)
    close(n, wn, 'northing of model point', 0, tol)
    with sut('real to model conversion'):
        x2, y2 = geom.real2mod(e, n, origin, b)
    close(x2, x if c['shape'] != 'nan' else np.where(np.isnan(y), np.nan, x), 'X after model-real-model', 0, 10 * tol)
    close(y2, y, 'Y after model-real-model', 0, 10 * tol)
    with sut('real to model conversion'):
        x3, y3 = geom.real2mod(we, wn, origin, b)
        e3, n3 = geom.mod2real(x3, y3, origin, b)
        xo, yo = geom.real2mod(origin[0], origin[1], origin, b)
    close(e3, we, 'easting after real-model-real', 0, 10 * tol)
    close(n3, wn, 'northing after real-model-real', 0, 10 * tol)
    close([xo, yo], [0, 0], 'origin in model coordinates', 0, tol)
    need(np.array_equal(keep[0], x, equal_nan=True) and np.array_equal(keep[1], y, equal_nan=True)
         and np.array_equal(keep[2], origin), 'coordinate conversion modified its inputs')
    # conversion is pointwise: same result one point at a time
    if np.ndim(x) == 1 and np.size(x) > 1:
        with sut('conversion of a single point'):
            e1, n1 = geom.mod2real(x[-1], y[-1], origin, b)
            x1, y1 = geom.real2mod(we[-1], wn[-1], origin, b)
        close([e1, n1], [we[-1], wn[-1]], 'single point to real', 0, tol)
        close([x1, y1], [x[-1], y[-1]], 'single point to model', 0, 10 * tol)
    rot = abs(math.sin(2 * b)) > 1e-3
    return {'nontrivial': rot and len(set(zip(c['x'], c['y']))) > 1, 'classes': [c['shape']]}
