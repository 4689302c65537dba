"""G02 intersecting polylines with transects and trimming lines to boundaries."""
import numpy as np
from hypothesis import strategies as st
from core import *

ID = 'G02'
RULE = ('random polylines/polygons (2-14 vertices, possibly recurved, vertices on the transect) cut at a random '
        'X; random near-perpendicular lines trimmed/extended to two sloping boundary lines; non-trivial = at '
        'least one crossing / an end node that really moves')
N = {'quick': 4000, 'thorough': 120000}


def strategy(tier):
    @st.composite
    def inter(draw):
        n = draw(st.integers(2, 14))
        closed = draw(st.booleans())
        xs = draw(sfls(100.0, n, draw(pick(10, 40, 997))))
        ys = draw(sfls(100.0, n, 1000))
        mono = draw(st.booleans())
        if mono:
            xs = sorted(xs)
        if closed:
            xs, ys = xs + xs[:1], ys + ys[:1]
        x = draw(st.one_of(sfl(120.0, 977), pick(*xs), sfl(100.0, 10)))
        return {'kind': 'intersect', 'x': xs, 'y': ys, 'at': x}

    @st.composite
    def trim(draw):
        nt = draw(st.integers(2, 12))
        sp = draw(fls(5.0, 40.0, nt))
        tx = [float(v) for v in np.cumsum([0] + sp)]
        base = draw(sfl(50.0))
        s_ = draw(sfls(1.0, nt + 1))
        e_ = draw(sfls(1.0, nt + 1))
        n = draw(st.integers(2, 6))
        f = draw(fl(0.2, 0.8))
        jit = draw(sfls(0.5, n))
        mid = tx[0] + f * (tx[-1] - tx[0])
        ys = [base + 20 + 60.0 * i / (n - 1) + 0.0 for i in range(n)]
        return {'kind': 'trim', 'tx': tx, 'ts': [base + v * 2 + draw(sfl(10)) * 0 for v in s_],
                'te': [base + 100 + v * 2 for v in e_],
                'lx': [mid + 2 * j for j in jit], 'ly': ys,
                'out0': draw(st.booleans()), 'out1': draw(st.booleans())}
    return st.one_of(inter(), inter(), trim())


def check(c):
    from hapuamod import geom
    if c['kind'] == 'intersect':
        xs, ys, at = c['x'], c['y'], c['at']
        want = []
        for i in range(len(xs) - 1):
            if (xs[i] < at) != (xs[i + 1] < at):
                want.append(ys[i] + (at - xs[i]) * (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]))
        line = np.array([xs, ys]).T
        keep = line.copy()
        with sut('intersecting a polyline with a transect'):
            got = geom.intersectPolyline(line, at)
        need(len(got) == len(want), 'polyline crossed %d times, %d reported', len(want), len(got))
        close(np.asarray(got, float), want, 'crossing position (in order along the line)', 1e-9, 1e-7)
        need(np.array_equal(line, keep), 'polyline modified')
        return {'nontrivial': len(want) > 0, 'classes': ['intersect', 'cross%d' % min(len(want), 4)]}
    tx, ts, te = (np.array(c[k], float) for k in ('tx', 'ts', 'te'))
    lx, ly = np.array(c['lx'], float), np.array(c['ly'], float)
    if c['out0']:
        ly[0] -= 45.0  # line overshoots its start boundary: must be trimmed back
    if c['out1']:
        ly[-1] += 45.0
    want = []
    for (k, j, b) in ((0, 1, ts), (len(lx) - 1, len(lx) - 2, te)):
        hits = []
        if len(lx) == 2 and k == 1:
            p0, p1 = want[0], (lx[1], ly[1])   # start was moved first
            x0, y0, x1, y1 = p0[0], p0[1], p1[0], p1[1]
        else:
            x0, y0, x1, y1 = lx[j], ly[j], lx[k], ly[k]
        for i in range(len(tx) - 1):
            a = np.array([[x1 - x0, tx[i] - tx[i + 1]], [y1 - y0, b[i] - b[i + 1]]])
            r = np.array([tx[i] - x0, b[i] - y0])
            t, u = np.linalg.solve(a, r)
            if -1e-12 <= u <= 1 + 1e-12:
                hits.append((x0 + t * (x1 - x0), y0 + t * (y1 - y0)))
        if not hits:
            raise Discard
        if any(abs(h[0] - hits[0][0]) > 1e-6 for h in hits):
            raise Discard
        want.append(hits[0])
    gx, gy = lx.copy(), ly.copy()
    with sut('trimming a line'):
        geom.trimLine(gx, gy, tx, ts, te)
    close([gx[0], gy[0]], want[0], 'trimmed start', 1e-9, 1e-6)
    close([gx[-1], gy[-1]], want[1], 'trimmed end', 1e-9, 1e-6)
    need(np.array_equal(gx[1:-1], lx[1:-1]) and np.array_equal(gy[1:-1], ly[1:-1]), 'trimming moved interior nodes')
    return {'nontrivial': True, 'classes': ['trim']}
