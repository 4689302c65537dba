"""L03 real-world spatial inputs to model geometry."""
import math
import os
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
from props.l02 import river

ID = 'L03'
RULE = ('coasts laid out in model space (irregular or straight shoreline, cliff, open or closed lagoon outline, river point, outlet angled '
        'left/right/straight) placed in the world at any bearing and origin; lines drawn in either order; non-trivial = an outlet crossing '
        'at least one transect, or the straight-outlet case')
N = {'quick': 900, 'thorough': 24000}
ASSUMPTIONS = ['shorelines running within about 10 degrees of north-south are outside the domain (the baseline regression of northing on '
               'easting is ill-conditioned there)',
               'outlets whose fitting transects are not contiguous, and decisions within 1e-6 m, are discarded']


def strategy(tier):
    @st.composite
    def s(draw):
        dx = draw(st.one_of(pick(20.0, 10.0, 25.0), fl(8.0, 40.0, 320)))
        half = draw(fl(12.0, 30.0)) * dx
        ns = draw(st.integers(2, 14))
        straight = draw(st.integers(0, 3)) == 0
        xs = [-half]
        for v in sorted(draw(fls(-half, half, ns, 5000))):
            if xs[-1] + 3.0 < v < half - 3.0:
                xs.append(v)
        xs.append(half)
        rough = 0.0 if straight else draw(pick(2.0, 10.0, 25.0))
        c = {'dx': dx, 'sx': xs, 'sy': [0.0] * len(xs) if straight else draw(sfls(rough, len(xs)))}
        # cliff extends beyond the shoreline
        nc = draw(st.integers(0, 6))
        c['cx'] = sorted({-half - 300.0, half + 300.0} | set(draw(fls(-half, half, nc, 5000))))
        c['cd'] = draw(fl(100.0, 250.0))
        c['cy'] = draw(fls(-15.0, 15.0, len(c['cx'])))
        # cliff may fold back over itself (promontory)
        c['fold'] = draw(st.integers(0, 5)) == 0
        # lagoon seaward edge
        a = -draw(fl(0.1, 0.9)) * (half - 2 * dx)
        b = draw(fl(0.1, 0.9)) * (half - 2 * dx)
        nl = draw(st.integers(0, 8))
        c['lx'] = sorted({a, b} | {a + (b - a) * f for f in draw(fls(0.01, 0.99, nl))})
        c['ld'] = draw(fl(40.0, 90.0))
        c['ly'] = draw(fls(-8.0, 8.0, len(c['lx'])))
        c['closed'] = draw(st.booleans())
        # where there is no lagoon the cliff may come up close to (or past) the line of the outlet
        if draw(st.integers(0, 2)) == 0:
            up = draw(fl(0.3, 0.98)) * (c['cd'] - 12.0)
            c['cx'] = sorted(set(c['cx']) | {a - 1.0, b + 1.0, a - 1.0 - draw(fl(0.1, 3.0)) * dx, b + 1.0 + draw(fl(0.1, 3.0)) * dx})
            c['cy'] = [(draw(fl(-15.0, 15.0)) if a - 1.5 < x < b + 1.5 else up) for x in c['cx']]
        c['rx'] = draw(sfl(0.4)) * half
        c['ry'] = -draw(fl(80.0, 400.0))
        # outlet centre line
        c['ow'] = draw(fl(5.0, 35.0))
        kind = draw(st.integers(0, 4))
        ox = draw(sfl(0.5)) * half
        span = 0.0 if kind == 0 else draw(fl(0.0, 0.9)) * dx if kind == 1 else draw(fl(0.5, 8.0)) * dx
        side = draw(pick(1, -1))
        no = draw(st.integers(0, 4))
        fs = sorted({0.0, 1.0} | set(draw(fls(0.05, 0.95, no))))
        c['ox'] = [ox + side * span * f for f in fs]
        y0, y1 = draw(pick(-30.0, -20.0, -10.0)), draw(pick(30.0, 20.0, 10.0))
        along = draw(pick(0, 1))
        if along and span:
            mid = -c['ld'] * draw(fl(0.3, 0.7))
            c['oy'] = [-c['ld'] + y0] + [mid] * (len(fs) - 2) + [y1]
            if len(fs) > 2:
                c['oy'] = [-c['ld'] + y0] + [mid + 0.01 * i for i in range(len(fs) - 2)] + [y1]
        else:
            c['oy'] = [(-c['ld'] + y0) * (1 - f) + y1 * f for f in fs]
        # the first leg, within the lagoon, may set off the other way
        if len(fs) > 1 and span and draw(st.integers(0, 2)) == 0:
            k = draw(fl(0.02, 0.45)) * dx
            c['ox'] = [c['ox'][0] + side * k] + c['ox']
            c['oy'] = [c['oy'][0] - draw(fl(0.5, 10.0))] + c['oy']
        # world placement: seaward bearing, avoiding shorelines close to north-south
        c['bearing'] = draw(st.one_of(pick(0, 180, 1, 179, 45, 135, 225, 315), st.integers(-78, 78), st.integers(102, 258)))
        c['e'] = draw(st.one_of(pick(0.0), sfl(5e5), pick(1.6e6)))
        c['n'] = draw(st.one_of(pick(0.0), sfl(5e5), pick(5.2e6)))
        c['flip'] = draw(ints(4, 1))
        c['flip2'] = draw(ints(4, 1))
        c['de'], c['dn'] = draw(sfl(1e4)), draw(sfl(1e4))
        c['half'] = draw(st.booleans())
        c['lb'], c['ob'], c['be'] = draw(sfl(2.0)), draw(sfl(2.0)), draw(fl(1.0, 6.0))
        c['spit'], c['rs'], c['ul'] = draw(fl(1.0, 40.0)), draw(logf(1e-4, 0.05)), draw(fl(50.0, 500.0))
        c['prj'] = draw(pick(0, 1))
        return c
    return s()


def layout(c):
    """Model-space input lines (as drawn by a user facing the sea)."""
    sh = list(zip(c['sx'], c['sy']))
    cl_ = [(x, -c['cd'] + y) for x, y in zip(c['cx'], c['cy'])]
    if c['fold'] and len(cl_) >= 2:
        (xa, ya), (xb, yb) = cl_[0], cl_[1]
        w = xb - xa
        cl_[1:1] = [(xa + 0.8 * w, ya + 5.0), (xa + 0.4 * w, ya - 20.0)]
    lag = [(x, -c['ld'] + y) for x, y in zip(c['lx'], c['ly'])]
    if c['closed']:
        back = [(x, min(-c['ld'] - 30.0, -c['cd'] + 3.0)) for x in (lag[-1][0] - 1.0, lag[0][0] + 1.0)]
        lag = lag + back + [lag[0]]
    out = list(zip(c['ox'], c['oy']))
    return [np.array(p, dtype=float) for p in (sh, cl_, lag, out)], np.array([c['rx'], c['ry']])


def place(pts, bearing, e, n):
    b = math.radians(bearing)
    x, y = pts[..., 0], pts[..., 1]
    # Y axis along the bearing, X axis 90 degrees clockwise of it
    return np.stack([e + y * math.sin(b) + x * math.cos(b), n + y * math.cos(b) - x * math.sin(b)], axis=-1)


def fit(p):
    """Least squares northing on easting (centred)."""
    from fractions import Fraction as F
    X = [F(float(v)) for v in p[:, 0]]
    Y = [F(float(v)) for v in p[:, 1]]
    mx, my = sum(X) / len(X), sum(Y) / len(Y)
    sl = sum((x - mx) * (y - my) for x, y in zip(X, Y)) / sum((x - mx) ** 2 for x in X)
    return float(sl), float(mx), float(my)


def write_shapes(d, lines, rpt, flips, prj):
    import shapefile
    for nm, pts, fl_ in zip(('Shore', 'Cliff', 'Lagoon', 'Outlet'), lines, flips):
        p = pts[::-1] if fl_ else pts
        w = shapefile.Writer(os.path.join(d, nm), shapeType=3)
        w.field('Id', 'N')
        w.line([[tuple(map(float, q)) for q in p]])
        w.record(1)
        w.close()
    w = shapefile.Writer(os.path.join(d, 'River'), shapeType=1)
    w.field('Id', 'N')
    w.point(float(rpt[0]), float(rpt[1]))
    w.record(1)
    w.close()


def config(c):
    cfg = cl.base()
    cfg['SpatialInputs'] = {'Shoreline': 'Shore.shp', 'RiverLocation': 'River.shp', 'BarrierBackshore': 'Lagoon.shp',
                            'CliffToe': 'Cliff.shp', 'OutletLocation': 'Outlet.shp'}
    cl.put(cfg, 'NumericalParameters', Dx=c['dx'])
    cl.put(cfg, 'InitialConditions', OutletWidth=c['ow'], OutletBed=c['ob'], LagoonBed=c['lb'], BarrierElev=c['be'])
    cl.put(cfg, 'PhysicalParameters', SpitWidth=c['spit'], RiverSlope=c['rs'], UpstreamLength=c['ul'], TargetBarWidth=c['spit'] + 50)
    return cfg


def run(c, lines, rpt, flips):
    import pandas as pd
    with cl.folder('l03') as d:
        cl.plain_series(d, pd.Timestamp('2001-02-03'), pd.Timestamp('2001-02-05'))
        write_shapes(d, lines, rpt, flips, c['prj'])
        return cl.load(cl.write(d, config(c)))


def cross(p, X):
    ys = []
    for (xa, ya), (xb, yb) in zip(p[:-1], p[1:]):
        if (xa < X) != (xb < X):
            ys.append(ya + (X - xa) * (yb - ya) / (xb - xa))
    return ys


def expected(c, lines, rpt, x, org, nd):
    """Geometry on transects x from lines in world coordinates, independent of the loader."""
    amb = 1e-5

    def loc(p):
        q = p - org
        return np.stack([q[..., 0] * math.cos(nd) - q[..., 1] * math.sin(nd),
                         q[..., 0] * math.sin(nd) + q[..., 1] * math.cos(nd)], axis=-1)
    sh, cf, lg, ot = [loc(p) for p in lines]
    if sh[0, 0] > sh[-1, 0]:
        sh = sh[::-1]
    if np.any(np.diff(sh[:, 0]) <= 0):
        raise Discard()
    dx = c['dx']
    k0, k1 = sh[0, 0] / dx, sh[-1, 0] / dx
    k = np.round(x / dx)
    close(x, k * dx, 'transect positions', 1e-12, 1e-9)
    need(np.all(np.diff(k) == 1), 'transects are not consecutive multiples of the spacing')
    need(k0 - 1e-6 <= k[0] < k0 + 1 + 1e-6, 'first transect at %r, shoreline starts at %r', float(x[0]), float(sh[0, 0]))
    need(k1 - 1 - 1e-6 <= k[-1] <= k1 + 1e-6, 'last transect at %r, shoreline ends at %r', float(x[-1]), float(sh[-1, 0]))
    n = x.size
    if ot[0, 1] > ot[-1, 1]:
        ot = ot[::-1]
    lo, hi = lg[:, 0].min(), lg[:, 0].max()
    oo, oh = ot[:, 0].min(), ot[:, 0].max()
    for e in (lo, hi, oo, oh):
        if np.min(abs(x - e)) < amb:
            raise Discard()
    if not (lo > x[0] + amb and hi < x[-1] - amb):
        raise Discard()
    Y = np.full((n, 5), np.nan)
    fits = np.zeros(n, bool)
    for i in range(n):
        X = x[i]
        if min(np.min(abs(q[:, 0] - X)) for q in (cf, lg, ot)) < amb:
            raise Discard()
        Y[i, 0] = np.interp(X, sh[:, 0], sh[:, 1])
        Y[i, 4] = max(cross(cf, X))
        Y[i, 3] = max(cross(lg, X)) if lo < X < hi else Y[i, 4]
        if oo < X < oh:
            ys = cross(ot, X)
            if len(ys) != 1:
                raise Discard()
            a, b = ys[0] - c['ow'] / 2, ys[0] + c['ow'] / 2
            if abs(a - Y[i, 3]) < amb or abs(b - Y[i, 0]) < amb:
                raise Discard()
            if a > Y[i, 3] and b < Y[i, 0]:
                fits[i] = True
                Y[i, 2], Y[i, 1] = a, b
    w = np.flatnonzero(fits)
    if w.size and np.any(np.diff(w) != 1):
        raise Discard()
    if abs(ot[0, 0] - ot[-1, 0]) < amb and ot.shape[0] != 2:
        raise Discard()
    tor = ot[0, 0] < ot[-1, 0]
    if w.size == 0:
        mean = ot[:, 0].mean()
        if abs(mean / dx - round(mean / dx)) < amb / dx:
            raise Discard()
        if abs(ot[0, 0] - ot[-1, 0]) < amb:
            tor = None            # exactly straight out: either side
        f = math.floor(mean / dx)
        cand = [(f * dx, f * dx + dx / 2)] if tor else [((f + 1) * dx, (f + 1) * dx - dx / 2)]
        if tor is None:
            cand = [(f * dx, f * dx + dx / 2), ((f + 1) * dx, (f + 1) * dx - dx / 2)]
        return Y, fits, tor, cand, 'straight'
    cand = [(x[w[0]], x[w[-1]] + dx / 2)] if tor else [(x[w[-1]], x[w[0]] - dx / 2)]
    return Y, fits, tor, cand, 'toR' if tor else 'toL'


def single(c, lines, org, nd):
    """Every transect within the outlet's extent is crossed once (the documented requirement), with some margin."""
    ot = (lines[3] - org)
    X = ot[:, 0] * math.cos(nd) - ot[:, 1] * math.sin(nd)
    for d in (-1e-4, 0.0, 1e-4):
        for k in range(math.floor(X.min() / c['dx']), math.ceil(X.max() / c['dx']) + 1):
            x = k * c['dx'] + d
            if X.min() < x < X.max() and np.sum((X[:-1] < x) != (X[1:] < x)) != 1:
                return False
    return True


def check(c):
    lines, rpt = layout(c)
    wl = [place(p, c['bearing'], c['e'], c['n']) for p in lines]
    wr = place(rpt, c['bearing'], c['e'], c['n'])
    sl, mx, my = fit(wl[0])
    big = 1 + abs(c['e']) + abs(c['n'])
    # baseline must be well determined and the river clearly to one side of it
    dirb = math.degrees(math.atan(sl))
    if abs(dirb) > 81:
        raise Discard()
    off = (wr[1] - my - sl * (wr[0] - mx)) / math.hypot(1, sl)
    if abs(off) < 1.0:
        raise Discard()
    t = ((wr[0] - mx) + sl * (wr[1] - my)) / (1 + sl * sl)
    org = np.array([mx + t, my + sl * t])
    nd = math.atan2(wr[0] - org[0], wr[1] - org[1]) + math.pi
    q = wl[0] - org
    if np.min(np.abs(np.diff(q[:, 0] * math.cos(nd) - q[:, 1] * math.sin(nd)))) < 0.01 or \
            np.ptp(np.sign(np.diff(q[:, 0] * math.cos(nd) - q[:, 1] * math.sin(nd)))) > 0:
        raise Discard()   # recurved shoreline
    if not single(c, wl, org, nd):
        raise Discard()
    m = run(c, wl, wr, c['flip'])
    close(m.Origin, org, 'model origin', 0, 1e-7 * big + 1e-3)
    off_s = (float(m.ShoreNormDir) - nd + math.pi) % (2 * math.pi) - math.pi
    need(abs(off_s) < 1e-6, 'shore normal bearing %.9g, expected %.9g', float(m.ShoreNormDir), nd)
    # remaining geometry is judged in the model's own (now verified) coordinates to avoid amplifying rounding
    go, gd = np.array(m.Origin, float), float(m.ShoreNormDir)
    x = cl.num(m.ShoreX)
    Y, fits, tor, cand, kind = expected(c, wl, wr, x, go, gd)
    tol = 1e-6 + 1e-9 * big
    dx = c['dx']
    got = [float(v) for v in m.OutletEndX]
    hit = [e for e in cand if max(abs(got[0] - e[0]), abs(got[1] - e[1])) < 1e-6]
    need(hit, 'outlet ends at %s, expected %s', got, cand)
    if kind == 'straight':
        i = np.flatnonzero(abs(x - hit[0][0]) < 1e-6)
        if i.size != 1:
            raise Discard()
        i = int(i[0])
        fits[i] = True
        Y[i, 1] = min(Y[i, 0] - c['spit'], (Y[i, 0] + Y[i, 3]) / 2 + c['ow'] / 2)
        Y[i, 2] = Y[i, 1] - c['ow']
        Y[i, 3] = min(Y[i, 2] - 0.001, Y[i, 3])
        tor = hit[0][1] > hit[0][0]
    close(m.ShoreY, Y, 'cross-shore positions', 1e-9, tol)
    n, q = x.size, int(fits.sum())
    z = cl.num(m.ShoreZ)
    need(z.shape == (n, 4), 'levels have shape %s', z.shape)
    close(z[:, 0], np.full(n, c['be']), 'barrier crest level', 1e-12, 1e-12)
    close(z[:, 3], np.full(n, c['lb']), 'lagoon bed level', 1e-12, 1e-12)
    bed = np.full(n, np.nan)
    step = (c['ob'] - c['lb']) / q
    b = [c['lb'] + step * j for j in range(q)]
    bed[fits] = b if tor else b[::-1]
    close(z[:, 1], bed, 'outlet bed level', 1e-9, 1e-9)
    close(z[:, 2], np.where(fits, c['be'], np.nan), 'inner barrier level', 1e-12, 1e-12)
    close(m.OutletEndWidth, c['ow'], 'outlet end width', 1e-12, 0)
    close(m.OutletEndElev, c['ob'], 'outlet end level', 1e-9, 1e-9)
    need(not bool(m.Closed), 'initially closed')
    river(m, c['lb'], c['rs'], c['ul'], dx)
    # metamorphic: drawn in another order, shifted and (optionally) turned half way round
    turn = 180 if c['half'] else 0
    wl2 = [place(p, c['bearing'] + turn, c['e'] + c['de'], c['n'] + c['dn']) for p in lines]
    wr2 = place(rpt, c['bearing'] + turn, c['e'] + c['de'], c['n'] + c['dn'])
    m2 = run(c, wl2, wr2, c['flip2'])
    d = (float(m2.ShoreNormDir) - gd - math.radians(turn) + math.pi) % (2 * math.pi) - math.pi
    need(abs(d) < 1e-6, 'orientation changed by %.9g for a turn of %d degrees', float(m2.ShoreNormDir) - gd, turn)
    sg = -1 if turn else 1
    wo = np.array([c['e'] + c['de'] + sg * (go[0] - c['e']), c['n'] + c['dn'] + sg * (go[1] - c['n'])])
    close(m2.Origin, wo, 'origin after shifting', 0, 1e-7 * (big + 2e4) + 1e-3)
    exact_straight = kind == 'straight' and len(cand) == 2
    if m2.ShoreX.size == x.size and not exact_straight:
        t2 = 1e-3 + 1e-6 * big
        if np.array_equal(np.isnan(cl.num(m2.ShoreY)), np.isnan(Y)):
            close(m2.ShoreX, x, 'transects after shifting', 1e-9, 1e-9)
            close(m2.ShoreY, Y, 'cross-shore positions after shifting/redrawing', 1e-6, t2)
            close(m2.OutletEndX, got, 'outlet ends after shifting/redrawing', 1e-9, 1e-6)
            close(cl.num(m2.ShoreZ), z, 'levels after shifting/redrawing', 1e-9, 1e-9)
        else:
            raise Violation('outlet channel differs after shifting/redrawing the inputs')
    elif m2.ShoreX.size != x.size:
        near = min(abs(v / dx - round(v / dx)) for v in ends(c, lines, wl, go, gd))
        need(near < 1e-6, 'number of transects changed from %d to %d after shifting', x.size, m2.ShoreX.size)
    more = ['cliff-near' for _ in [0] if len(np.flatnonzero((Y[:, 3] == Y[:, 4]) & fits))]
    X = wl[3] @ np.array([math.cos(gd), -math.sin(gd)])
    if np.ptp(np.sign(np.diff(X))) > 1:
        more.append('first-leg-reversed')
    return {'nontrivial': True, 'classes': [kind, 'rotated' if turn else 'shifted'] + more}


def ends(c, lines, wl, go, gd):
    q = wl[0][[0, -1]] - go
    return q[:, 0] * math.cos(gd) - q[:, 1] * math.sin(gd)
