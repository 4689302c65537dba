"""V03 live plots follow the run."""
import os
from contextlib import ExitStack
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import simlib

ID = 'V03'
RULE = ('short simulations with live plots at intervals from shorter than a step to longer than the run, every step also saved; compared with the saved '
        'states and with the same run without plots; non-trivial = the plots are updated at least once')
N = {'quick': 70, 'thorough': 1300}
SHRINK_SECONDS = 60
ASSUMPTIONS = ['the figures show the hydraulics of the step with the bed at its start, and the coast at its end',
               'the plan view of the outlet is not judged in a step in which it breaches or its channel transects change (V01 covers its drawing)',
               'figures are obtained from the functions that create them (visualise.longSection, bdyCndFig and modelView), called through']
F4 = 3e-7


def strategy(tier):
    @st.composite
    def s(draw):
        c = draw(simlib.strategy(tier))
        c['dur'] = min(c['dur'], draw(pick(4, 8, 12, 12)) * c['mdmin'] / 60)
        c['outint'] = c['tsint'] = 0.0
        c['plotint'] = draw(pick(0.34, 0.34, 0.19, 0.55, 0.001, 1.0, 1.7, 0.08)) * 60 * c['dur']
        return c
    return s()


def spied(stack, figs):
    """Keep the figures created while the context lasts."""
    from hapuamod import visualise, core
    for name in ('longSection', 'bdyCndFig', 'modelView'):
        real = getattr(visualise, name)

        def call(*a, _real=real, _name=name, **k):
            f = _real(*a, **k)
            figs.setdefault(_name, []).append(f)
            return f
        stack.enter_context(mock.patch.object(visualise, name, call))
        if getattr(core, name, None) is real:
            stack.enter_context(mock.patch.object(core, name, call))


def line(l):
    import matplotlib.dates as md
    def num(a):
        a = np.asarray(a).ravel()
        return a
    x = num(l.get_xdata(orig=False)).astype(float)
    y = np.array([float(np.asarray(v).ravel()[0]) for v in np.asarray(l.get_ydata(orig=True), dtype=object).ravel()])
    return x, y, md


def check(c):
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    plt.close('all')
    from props.v01 import xy, polyline, parts, within, GAP
    t0, t1 = simlib.period(c)
    figs = {}
    try:
        with cl.folder('v03') as d:
            f1, f2 = (os.path.join(d, f) for f in simlib.outputs(c))
            simlib.run(d, simlib.setup(d, c))
            a, ta = simlib.results(f1)
            b, tb = simlib.results(f2)
            need(not plt.get_fignums(), '%d figures made without being asked for', len(plt.get_fignums()))
        with cl.folder('v03') as d:
            f1, f2 = (os.path.join(d, f) for f in simlib.outputs(c))
            with ExitStack() as s:
                spied(s, figs)
                simlib.run(d, simlib.setup(d, dict(c, plotat=c['plotint'])))
            v, t = simlib.results(f1)
            w, _ = simlib.results(f2)
        for x, y, nm in ((a, v, 'results'), (b, w, 'time series')):
            for k in x:
                need(x[k].shape == y[k].shape and np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == 'f'), 'plotting changed the %s (%s)', nm, k)
        need(len(plt.get_fignums()) == 3, 'live plotting made %d figures', len(plt.get_fignums()))
        if sorted(figs) != ['bdyCndFig', 'longSection', 'modelView'] or any(len(f) != 1 for f in figs.values()):
            raise Discard()
        # times at which the figures are updated
        every = c['plotint']
        ms = round(every * 1e6) / 1e6
        secs = [(q - t0).total_seconds() for q in t]
        at, k = [0], 1
        for i, q in enumerate(secs[1:], 1):
            if abs(q - ms * k) < 1e-4 and every % 1e-3:
                raise Discard()
            if q >= ms * k - 1e-6:
                at.append(i)
                k += 1
        n = at[-1]
        what = 'live plots every %g s (steps at %s s, last plot at %g s)' % (every, secs[:12], secs[n])
        # boundary conditions
        B = figs['bdyCndFig'][0]
        L = {l.get_color(): l for ax in B[0].axes for l in ax.get_lines()}
        for col, want, nm in (('b', v['river_flow'][at], 'inflow'), ('r', np.r_[v['river_flow'][0], w['lagoon_outflow'][at[1:]]], 'outflow'), ('g', v['sea_level'][at], 'sea level')):
            x, y, md = line(L[col])
            need(x.size == len(at), '%s: %s has %d points, expected %d', what, nm, x.size, len(at))
            close(x, np.array([md.date2num(t[i]) for i in at]), what + ': times of the ' + nm, 0, 1e-7)
            close(y, want.astype(float), '%s: %s' % (what, nm), 3e-6, 1e-6)
        # long section: the river part
        f = figs['longSection'][0]
        p = max(n - 1, 0)
        bed, wl, vel, qs = v['river_bed_z'][p].astype(float), v['river_wl'][n], v['river_vel'][n], v['river_bedload'][n].astype(float)
        if n:
            dep = wl.astype(float) - v['river_bed_z'][n].astype(float)
        else:
            dep = wl.astype(float) - bed
        m = bed.size
        dist = c['dx'] * np.arange(m)
        g = {k: xy(f[k]) for k in ('BedLine', 'WaterLine', 'VelLine', 'FlowLine', 'QsLine')}
        big = 1 + np.abs(bed).max()
        for k, y, e in (('BedLine', bed, 1e-6 * big), ('WaterLine', bed + dep, 2e-6 * big), ('VelLine', vel.astype(float), 1e-6 * (1 + np.abs(vel).max()))):
            need(g[k].shape[0] > m, '%s: %s has %d points', what, k, g[k].shape[0])
            close(g[k][:m, 0], dist, '%s: distances of the %s' % (what, k), 1e-6, 1e-6)
            close(g[k][:m, 1], y, '%s: %s' % (what, k), 0, e)
        if n:
            # sediment leaving each river section
            mm = min(m, qs.size)
            close(g['QsLine'][:mm, 1], qs[:mm] * 3600, what + ': bedload', 1e-5, 1e-6)
            q = float(w['lagoon_outflow'][n])
            close(g['FlowLine'][-1:, 1], [q], what + ': outflow', 1e-5, 1e-5)
        else:
            close(g['QsLine'][:, 1], 0 * g['QsLine'][:, 1], what + ': bedload', 0, 1e-12)
        # plan view
        f = figs['modelView'][0]
        X = v['transect_x'].astype(float)
        sh, cf, lg = (v[k][n].astype(float) for k in ('shoreline_y', 'cliff_y', 'lagoon_y'))
        tol = 1e-6 * (1 + max(np.abs(sh).max(), np.abs(cf).max(), np.abs(X).max()))

        def near(got, want, nm):
            need(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=tol, equal_nan=True), '%s: %s drawn at %s, expected %s', what, nm,
                 np.round(got, 3).tolist()[:8], np.round(want, 3).tolist()[:8])
        near(xy(f['CrestLine']), np.column_stack([X, v['barrier_crest_z'][n].astype(float)]), 'barrier crest')
        ch = np.concatenate(parts(xy(f['ChannelLine'])) or [np.zeros((0, 2))])
        has = ~np.isnan(v['outlet_bank1_y'][n])
        want = np.vstack([np.column_stack([X[has], v[k][n][has].astype(float)]) for k in ('outlet_bank1_y', 'outlet_bank2_y')])
        o = lambda p: p[np.lexsort(np.round(p, 3).T)]
        need(len(ch) == len(want) and all(np.any(np.all(np.abs(ch - q) <= tol, axis=1)) for q in want), '%s: channel banks drawn at %s, expected %s', what,
             np.round(o(ch), 2).tolist()[:6], np.round(o(want), 2).tolist()[:6])
        lst, cst = v['lst'][n].astype(float) / 3600, v['cst'][n].astype(float) / 3600
        close(np.asarray(f['LstQuiver'].U, float), lst, what + ': longshore transport arrows', 1e-6, 1e-9 + 1e-6 * np.abs(lst).max())
        close(np.asarray(f['CstQuiver'].V, float), -cst, what + ': cross-shore transport arrows', 1e-6, 1e-9 + 1e-6 * np.abs(cst).max())
        off = np.asarray(f['CstQuiver'].get_offsets(), float)
        near(off, np.column_stack([X, sh]), 'positions of the cross-shore transport')
        was, now = bool(v['outlet_closed'][p]), bool(v['outlet_closed'][n])
        S = xy(f['ShoreLine'])
        if now:
            near(S, np.column_stack([X, sh]), 'closed shoreline')
            near(xy(f['LagoonLine']), np.column_stack([X, lg]), 'lagoon shoreline')
            need(not parts(xy(f['OutletLine'])), '%s: an outlet is drawn though closed', what)
        elif not was:
            e, ww = float(v['outlet_end_x'][n][1]), float(v['outlet_end_width'][n])
            dl, dr = e - ww / 2, e + ww / 2
            if np.abs(np.subtract.outer(X, [dl, dr])).min() > 10 * tol:
                sy = lambda x: np.interp(x, X, sh)
                cs = np.column_stack([X, sh])
                near(S, np.vstack([cs[X <= dl], [[dl, sy(dl)]], GAP, [[dr, sy(dr)]], cs[X >= dr]]), 'shoreline with its outlet')
                need(len(parts(xy(f['OutletLine']))) == 2, '%s: outlet not drawn with two banks', what)
    finally:
        plt.close('all')
    return {'nontrivial': len(at) > 1, 'classes': [c['mode'], 'closed' if now else 'breached' if was else 'open',
                                                   'never' if len(at) == 1 else 'each step' if len(at) == len(t) else 'some steps']}
