"""L02 default initial geometry."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl

ID = 'L02'
RULE = ('random spacing (incl. fractional and not exactly representable), shoreline lengths (incl. exact multiples of the spacing and '
        'zero), levels, widths and slopes; non-trivial = every case')
N = {'quick': 1600, 'thorough': 40000}


def strategy(tier):
    @st.composite
    def s(draw):
        dx = draw(st.one_of(pick(20.0, 10.0, 0.1, 0.3, 0.7, 12.5, 1.1, 7.3), fl(0.5, 50.0, 495), logf(0.2, 200.0)))
        ln = st.one_of(st.integers(0, 40).map(lambda k: k * dx), fl(0.0, 40 * dx), pick(0.0))
        return {'dx': dx, 'left': draw(ln), 'right': draw(ln), 'beach': draw(fl(0.0, 300.0)), 'spit': draw(fl(1.0, 60.0)),
                'ow': draw(fl(0.5, 150.0)), 'ob': draw(sfl(4.0)), 'lb': draw(sfl(4.0)), 'be': draw(sfl(8.0)),
                'rw': draw(fl(1.0, 300.0)), 'rs': draw(st.one_of(logf(1e-5, 0.9), pick(0.0, 0.003))),
                'ul': draw(st.one_of(st.integers(1, 60).map(lambda k: k * dx), fl(0.5, 60.0).map(lambda k: k * dx))),
                'given': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3]))}
    return s()


def check(c):
    import pandas as pd
    cfg = cl.base()
    dx = c['dx']
    cl.put(cfg, 'NumericalParameters', Dx=dx)
    cl.put(cfg, 'SpatialInputs', ShorelineLengthLeft=c['left'], ShorelineLengthRight=c['right'], BeachWidth=c['beach'])
    cl.put(cfg, 'InitialConditions', OutletWidth=c['ow'], OutletBed=c['ob'], LagoonBed=c['lb'], BarrierElev=c['be'])
    cl.put(cfg, 'PhysicalParameters', SpitWidth=c['spit'], RiverWidth=c['rw'], RiverSlope=c['rs'], UpstreamLength=c['ul'], TargetBarWidth=c['spit'] + 50)
    if c['given']:
        k = ['ShorelineLengthLeft', 'ShorelineLengthRight', 'BeachWidth'][c['given'] - 1]
        del cfg['SpatialInputs'][k]
    with cl.folder('l02') as d:
        cl.plain_series(d, pd.Timestamp('2001-02-03'), pd.Timestamp('2001-02-05'))
        p = cl.write(d, cfg)
        if c['given']:
            try:
                cl.load(p, allow=(Exception,))
            except Exception as e:
                need(k in str(e), 'missing %s reported as: %s', k, e)
            else:
                raise Violation('missing %s accepted' % k)
            return {'nontrivial': True, 'classes': ['missing']}
        m = cl.load(p)
    tol = 1e-6 * dx
    x = cl.num(m.ShoreX)
    n = x.size
    close(np.diff(x), np.full(n - 1, dx), 'transect spacing', 1e-9, 1e-9 * (1 + abs(x).max()))
    at0 = np.flatnonzero(x == 0)
    need(at0.size == 1, 'no transect at exactly X=0 (nearest %r)', float(x[np.argmin(abs(x))]))
    close(x, dx * (np.arange(n) - at0[0]), 'transect positions', 1e-12, 1e-9)
    need(-c['left'] - dx - tol < x[0] <= -c['left'] + tol, 'left end at %r for length %r', float(x[0]), c['left'])
    need(c['right'] - tol <= x[-1] < c['right'] + dx + tol, 'right end at %r for length %r', float(x[-1]), c['right'])
    i = int(at0[0])
    Y = np.full((n, 5), np.nan)
    Y[:, 0] = 0.0
    Y[:, 3] = Y[:, 4] = -c['beach']
    Y[i] = [0.0, -c['spit'], -c['spit'] - c['ow'], -c['spit'] - c['ow'] - 0.001, -c['spit'] - c['ow'] - c['rw']]
    close(m.ShoreY, Y, 'cross-shore positions', 1e-12, 1e-9)
    z = cl.num(m.ShoreZ)
    need(z.shape == (n, 4), 'levels have shape %s', z.shape)
    close(z[:, 0], np.full(n, c['be']), 'barrier crest level', 1e-12, 1e-12)
    close(z[:, 3], np.full(n, c['lb']), 'lagoon bed level', 1e-12, 1e-12)
    o = np.full(n, np.nan)
    o[i] = (c['ob'] + c['lb']) / 2
    close(z[:, 1], o, 'outlet bed level', 1e-12, 1e-12)
    o[i] = c['be']
    close(z[:, 2], o, 'inner barrier level', 1e-12, 1e-12)
    close(m.OutletEndX, [0.0, 0.0], 'outlet end positions', 0, 0)
    close(m.OutletEndWidth, c['ow'], 'outlet end width', 1e-12, 0)
    close(m.OutletEndElev, c['ob'], 'outlet end level', 1e-12, 0)
    need(not bool(m.Closed), 'initially closed')
    close(m.Origin, [0.0, 0.0], 'origin', 0, 0)
    need(float(m.ShoreNormDir) == 0.0, 'shore normal %r', m.ShoreNormDir)
    river(m, c['lb'], c['rs'], c['ul'], dx)
    for k, sz in (('RiverWL', m.RiverElev.size), ('RiverVel', m.RiverElev.size), ('LagoonWL', n), ('LagoonVel', n), ('OutletDep', n),
                  ('OutletVel', n), ('OutletEndDep', 2), ('OutletEndVel', 2)):
        need(np.shape(getattr(m, k)) == (sz,), '%s has shape %s', k, np.shape(getattr(m, k)))
    need(np.all(m.LagoonVel == 0), 'lagoon velocity not zero before the first solution')
    own = [m.ShoreX, m.ShoreY, m.ShoreZ, m.RiverElev, m.OutletEndX, m.OutletEndWidth, m.OutletEndElev]
    for a in range(len(own)):
        need(own[a].flags.writeable, 'initial geometry array %d is read only', a)
        for b in range(a):
            need(not np.shares_memory(own[a], own[b]), 'initial geometry arrays %d and %d share memory', a, b)
    return {'nontrivial': True, 'classes': ['plain']}


def river(m, lb, slope, length, dx):
    r = cl.num(m.RiverElev)
    q = length / dx
    # a length that is a whole number of spacings up to rounding has that many nodes
    sizes = {round(q)} if abs(q - round(q)) < 2e-7 else {math.ceil(q - 2e-6), math.ceil(q + 2e-6)}
    need(r.ndim == 1 and r.size in sizes, 'river has %d nodes for %g spacings', r.size, q)
    close(r, lb + slope * dx * np.arange(r.size)[::-1], 'river bed level', 1e-9, 1e-9 * (1 + abs(lb) + slope * length))
