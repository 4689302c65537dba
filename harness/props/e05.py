"""E05 a simulation continued from its saved results goes on as if it had not been interrupted."""
import os
import numpy as np
from hypothesis import strategies as st
from core import *
import simlib
import cfglib as cl
from props import e04

ID = 'E05'
RULE = ('short simulations as for E01 with a fixed timestep and every step saved, then continued from one of the saved steps; '
        'non-trivial = at least 2 steps after the interruption')
N = {'quick': 90, 'thorough': 1400}
SHRINK_SECONDS = 60
ASSUMPTIONS = ['fixed timestep (the adaptive timestep itself is not saved); results are stored in single precision: a difference is not reported '
               'when changing the last stored digits of the saved state changes the continuation as well']


def strategy(tier):
    @st.composite
    def s(draw):
        c = draw(simlib.strategy(tier))
        c['mode'] = draw(pick('default', 'shapes', 'open', 'open', 'open', 'closed', 'closed', 'narrow', 'narrow', 'hurunui'))
        if c['mode'] == 'narrow' and draw(pick(1, 0)):        # closes at once
            c['ow'] = min(c['ow'], 4.5)
            c['phys'] = dict(c['phys'], MinOutletWidth=5.0)
        if draw(pick(0, 1)):
            c['hyddt'] = c['mdmin'] = draw(pick(30.0, 60.0))
        c['mdmax'] = c['mdmin']
        if draw(pick(0, 1)):
            c['phys'] = dict(c['phys'], Kcoef=0.3)
            c['waves'] = [w[:2] + [4e4] + w[3:] for w in c['waves']]
        c['tsint'] = c['outint'] = 0.0
        c['shot'] = False
        c['seed2'] = draw(st.integers(0, 10 ** 6))
        c['at'] = draw(fl(0.0, 1.0))
        if c['sea'] is None:                          # (a synthetic tide starts anew)
            c['sea'] = draw(sfls(0.8, len(c['flow'])))
        c['event'] = draw(pick(True, True, False))
        c['cont2'] = draw(st.booleans())
        c['hours'] = draw(pick(0, 0, 1, -1))
        return c
    return s()


def nudge(path, k, seed):
    """Disturb the last digits of everything saved at output k."""
    import netCDF4
    g = np.random.default_rng(seed)
    with netCDF4.Dataset(path, 'r+') as nc:
        for nm, v in nc.variables.items():
            if v.dtype.kind == 'f' and v.dimensions and v.dimensions[0] == 'time' and nm != 'time':
                x = np.array(np.ma.filled(v[k], np.nan), float)
                v[k] = x * (1 + 2e-7 * g.standard_normal(x.shape))


def resume(d, c, k, times, name):
    """Continue from output k of hot file name in folder d; returns results and time series from then on."""
    c2 = dict(c, named=True)
    cfg = simlib.config(c2)
    fmt = '%Y-%m-%d %H:%M:%S.%f'
    cfg.pop('SpatialInputs', None)
    cfg['InitialConditions'] = dict(cfg['InitialConditions'])
    cfg['HotStart'] = {'InitialConditionsNetCDF': name, 'HotStartTime': times[k].strftime(fmt), 'ContinueSimulation': c['cont2']}
    if c['cont2']:
        import pandas as pd
        cl.put(cfg, 'Time', StartTime=(simlib.period(c)[0] + pd.Timedelta(hours=c['hours'])).strftime(fmt))
    else:
        cl.put(cfg, 'Time', StartTime=times[k].strftime(fmt))
    p = cl.write(d, cfg)
    simlib.run(d, p, what='continued simulation')
    return [simlib.results(os.path.join(d, f)) for f in simlib.outputs(c2)]


def cut(v, t, k):
    return {a: (np.asarray(b)[k:] if np.ndim(b) and len(b) == len(t) and a not in e04.SKIP else b) for a, b in v.items()}, t[k:]


def events(v):
    """Saved steps (but the last) in which the channel has just been rearranged."""
    x, e, cl_ = np.asarray(v['transect_x'], float), np.asarray(v['outlet_end_x'], float), np.asarray(v['outlet_closed'], bool)
    bed, wl = np.asarray(v['outlet_bed_z'], float), np.asarray(v['outlet_wl'], float)
    out = []
    for i in range(1, len(cl_) - 1):
        lo, hi = min(e[i]), max(e[i])
        fresh = not cl_[i] and np.any((x >= lo) & (x <= hi) & np.isfinite(bed[i]) & ~np.isfinite(wl[i]))
        if fresh or cl_[i] != cl_[i - 1] or e[i][0] != e[i - 1][0] or np.any(np.isfinite(bed[i]) != np.isfinite(bed[i - 1])):
            out.append(i)
    return out


def check(c):
    import shutil
    with cl.folder('e05') as d:
        p = simlib.setup(d, c)
        simlib.run(d, p)
        f = simlib.outputs(c)
        (v, t), (w, u) = [simlib.results(os.path.join(d, x)) for x in f]
        need(len(t) == len(u), 'results have %d times, time series %d', len(t), len(u))
        if len(t) < 2:
            raise Discard()
        ev = events(v)
        cl_ = np.asarray(v['outlet_closed'], bool)
        opening = [i for i in range(len(cl_) - 2) if cl_[i] and not cl_[i + 1]]
        if opening and c['at'] < 0.7:                # the outlet opens in the next step
            k = opening[min(int(c['at'] / 0.7 * len(opening)), len(opening) - 1)]
        elif c['event'] and ev:
            k = ev[min(int(c['at'] * len(ev)), len(ev) - 1)]
        else:
            k = min(int(c['at'] * (len(t) - 1)), len(t) - 2)
        shutil.move(os.path.join(d, f[0]), os.path.join(d, 'first.nc'))
        B = resume(d, c, k, t, 'first.nc')
        A = [cut(v, t, k), cut(w, u, k)]

        def compare(X, Y):
            for nm, (a, ta), (b, tb) in zip(('results', 'time series'), X, Y):
                a, ta = cut(a, ta, 1)
                b, tb = cut(b, tb, 1)
                e04.same(nm, a, ta, b, tb, 0.0, 10.0)
        try:
            compare(A, B)
        except Violation as why:
            if len(A[0][1]) == len(B[0][1]):
                for j in range(3):
                    shutil.copy(os.path.join(d, 'first.nc'), os.path.join(d, 'second.nc'))
                    nudge(os.path.join(d, 'second.nc'), k, c['seed2'] + j)
                    try:
                        compare(B, resume(d, c, k, t, 'second.nc'))
                    except Violation:
                        raise Discard() from None
            raise Violation('continued from output %d at %s: %s' % (k, t[k], why)) from None
    cl_ = np.asarray(w['outlet_closed'], bool)
    return {'nontrivial': len(t) - k > 2, 'classes': [c['mode'], 'from-start' if k == 0 else 'later', 'closed' if cl_[k] else 'open']
            + (['just-rearranged'] if k in ev else []) + (['breached'] if k in opening else [])}
