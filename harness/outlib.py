"""Generated model states and their expected form in the results files."""
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl

# variable -> (dimension kind, function of the state)
RAW = {
    'sea_level': lambda s: s['sea'], 'river_flow': lambda s: s['flow'], 'hs_offshore': lambda s: s['hs'], 'wave_dir': lambda s: s['edir'],
    'shoreline_y': lambda s: s['Y'][:, 0], 'outlet_bank1_y': lambda s: s['Y'][:, 1], 'outlet_bank2_y': lambda s: s['Y'][:, 2],
    'lagoon_y': lambda s: s['Y'][:, 3], 'cliff_y': lambda s: s['Y'][:, 4],
    'barrier_crest_z': lambda s: s['Z'][:, 0], 'outlet_bed_z': lambda s: s['Z'][:, 1], 'inner_barrier_crest_z': lambda s: s['Z'][:, 2],
    'lagoon_bed_z': lambda s: s['Z'][:, 3],
    'lagoon_wl': lambda s: s['lwl'], 'lagoon_vel': lambda s: s['lvel'], 'lagoon_bedload': lambda s: s['lbed'],
    'outlet_wl': lambda s: s['odep'] + s['Z'][:, 1], 'outlet_vel': lambda s: s['ovel'], 'outlet_bedload': lambda s: s['obed'],
    'lst': lambda s: s['lst'], 'cst': lambda s: s['cst'], 'overwash_proportion': lambda s: s['ow'],
    'river_bed_z': lambda s: s['rz'], 'river_wl': lambda s: s['rz'] + s['rdep'], 'river_vel': lambda s: s['rvel'], 'river_bedload': lambda s: s['rbed'],
    'outlet_end_x': lambda s: s['oex'], 'outlet_end_width': lambda s: s['oew'], 'outlet_end_z': lambda s: s['oez'],
    'outlet_end_wl': lambda s: s['oez'] + s['oed'][0], 'outlet_end_vel': lambda s: s['oev'][0], 'outlet_end_bedload': lambda s: s['oeb'][0],
    'dummy_xs_dep': lambda s: s['oed'][1], 'dummy_xs_vel': lambda s: s['oev'][1],
}


def grid(draw, dxs=None):
    dx = draw(pick(20.0, 10.0, 12.5, 7.3, 0.1, 33.3))
    n = draw(st.integers(3, 14))
    k0 = draw(st.integers(-40, 0))
    nr = draw(st.integers(1, 6))
    return {'dx': dx, 'n': n, 'k0': k0, 'nr': nr}


def state(draw, g):
    """One model state (JSON form) on grid g."""
    n, nr = g['n'], g['nr']
    closed = draw(st.integers(0, 3)) == 0
    lo = draw(st.integers(0, n - 1))
    hi = draw(st.integers(lo, n - 1))
    ltor = draw(st.booleans())
    mode = draw(pick('open', 'open', 'inline'))
    d = {'closed': closed, 'lo': lo, 'hi': hi, 'ltor': ltor, 'inline': mode == 'inline', 'off': draw(st.one_of(pick(0.0, 0.5), fl(0.0, 1.0))),
         'relic': closed and draw(st.booleans()),
         'v': draw(sfls(50.0, n * 12 + nr * 4 + 14)), 'sea': draw(sfl(3.0)), 'flow': draw(fl(0.0, 2000.0)), 'hs': draw(fl(0.0, 12.0)),
         'edir': draw(sfl(3.14159)), 'oew': draw(fl(0.0, 100.0)), 'lag': draw(ints(n, 1)), 'ow': draw(fls(0.0, 1.0, n)),
         'tr': draw(fls(0.0, 0.5, n * 4 + nr + 2))}
    return d


def build(g, d):
    """Arrays of a state."""
    n, nr, dx = g['n'], g['nr'], g['dx']
    v = np.array(d['v'])
    p = [0]

    def take(k):
        p[0] += k
        return v[p[0] - k:p[0]].copy()
    x = dx * (np.arange(n) + g['k0'])
    Y = take(5 * n).reshape(n, 5)
    Z = take(4 * n).reshape(n, 4) / 10
    chan = np.zeros(n, bool)
    chan[d['lo']:d['hi'] + 1] = True
    if d['closed'] and not d['relic']:
        chan[:] = False
    Y[~chan, 1:3] = np.nan
    Z[~chan, 1:3] = np.nan
    lwl, lvel, ovel = take(n) / 10, take(n) / 20, take(n) / 20
    odep = np.abs(ovel) + 0.1
    lag = np.array(d['lag'], bool)
    lvel[~lag] = np.nan
    lwl[~lag] = np.nan
    tr = np.array(d['tr'])
    lbed, obed = tr[:n].copy(), tr[n:2 * n].copy()
    lbed[~lag] = np.nan
    open_ = chan & (not d['closed'])
    for a in (odep, ovel, obed):
        a[~open_] = np.nan
    lo, hi = x[d['lo']], x[d['hi']]
    if d['inline']:
        oex = np.array([lo, lo])
    elif d['ltor']:
        oex = np.array([lo, hi + d['off'] * dx * 0.99])
    else:
        oex = np.array([hi, lo - d['off'] * dx * 0.99])
    oed, oev = np.abs(take(2)) / 10, take(2) / 20
    oeb = np.array([tr[-1], tr[-2]])
    if d['closed']:
        oed[:] = np.nan
        oev[:] = np.nan
        oeb[:] = np.nan
    return {'x': x, 'Y': Y, 'Z': Z, 'lwl': lwl, 'lvel': lvel, 'lbed': lbed, 'odep': odep, 'ovel': ovel, 'obed': obed,
            'lst': (tr[2 * n:3 * n - 1] - 0.25), 'cst': tr[3 * n:4 * n], 'ow': np.array(d['ow']),
            'rz': take(nr) / 10, 'rdep': np.abs(take(nr)) / 10 + 0.1, 'rvel': take(nr) / 10, 'rbed': tr[4 * n:4 * n + nr],
            'oex': oex, 'oez': float(take(1)[0] / 20), 'oew': d['oew'], 'oed': oed, 'oev': oev, 'oeb': oeb,
            'sea': d['sea'], 'flow': d['flow'], 'hs': d['hs'], 'edir': d['edir'], 'closed': d['closed'], 'open': open_}


def physical():
    p = dict(cl.base(full=True)['PhysicalParameters'])
    p.update(K2coef=1.0, BreakerCoef=1.0, BarRatSlope=0.1, BarRatInt=0.2)
    return p


def create(path, g, start, origin=(0.0, 0.0), bearing=0.0, overwrite=False, name='generated'):
    from hapuamod import out
    x = g['dx'] * (np.arange(g['n']) + g['k0'])
    with sut('newOutFile'):
        out.newOutFile(path, name, start, x, g['dx'], np.zeros(g['nr']), np.array(origin), bearing, physical(), overwrite)


def put(path, t, s):
    from hapuamod import out
    arrays = [v for v in s.values() if isinstance(v, np.ndarray)]
    before = [v.copy() for v in arrays]
    with sut('writeCurrent'):
        out.writeCurrent(path, t, s['sea'], s['flow'], s['hs'], s['edir'], s['Y'], s['Z'], s['lwl'], s['lvel'], s['lbed'],
                         s['odep'], s['ovel'], s['obed'], s['lst'], s['cst'], s['ow'], s['rz'], s['rdep'], s['rvel'], s['rbed'],
                         s['oex'], np.asarray(s['oez']), np.asarray(s['oew']), s['oed'], s['oev'], s['oeb'], s['closed'])
    for a, b in zip(arrays, before):
        need(np.array_equal(a, b, equal_nan=True), 'writing results changed the model state')


def factor(units):
    """Factor from SI (m, m3/s, radians, s) to the declared units."""
    u = units.lower().replace('^', '').replace(' ', '')
    if 'hour' in u or u.endswith('/h'):
        return 3600.0
    if u.startswith('deg'):
        return 180.0 / np.pi
    if u in ('m', 'm/s', '0to1', 's', '') or u.endswith('/s'):
        return 1.0
    raise Violation('variable with unknown units %r' % units)


def single(got, want, what):
    w = np.asarray(want, float)
    close(got, w, what, 3e-7, 1e-6 * (1e-3 + float(np.nanmax(np.abs(w))) if w.size and np.any(~np.isnan(w)) else 1e-9))
