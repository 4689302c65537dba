"""V02 animations show the requested results in order."""
import os
import runpy
import sys
import warnings
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import gen
import outlib as ol
import rivlib
from props import v01

ID = 'V02'
RULE = ('results files of 1..7 states (outlet migrating, closing, opening, bed and water levels changing) animated as plan, cross-section or long-section '
        'with any start, end (also beyond the last), step, frame rate and area, through main or its command line; non-trivial = 2 or more frames')
N = {'quick': 110, 'thorough': 2200}
SHRINK_SECONDS = 60
ASSUMPTIONS = ['the end timestep is exclusive, as in the code (a Python range)',
               'frames are recorded by a movie writer that keeps the drawn lines instead of rendering them; what a figure of a state must show is decided by V01']


def strategy(tier):
    @st.composite
    def s(draw):
        g = gen.geometry(draw, thin=0.0, gaps=False, relics=False, mode='open')
        gen.hydraulics(draw, g)
        n = len(g['X'])
        nt = draw(pick(4, 3, 5, 6, 2, 7, 1))
        g['upd'] = [{'dy': draw(sfl(40.0)), 'f': draw(pick(1.0, 1.3, 0.8)), 'close': draw(st.integers(0, 3)) == 0, 'dz': draw(sfl(0.5)),
                     'w': draw(fl(2.0, 60.0)), 'hf': draw(fl(0.3, 2.0))} for _ in range(nt - 1)]
        g['sea'] = draw(sfls(2.0, nt))
        g['gap'] = draw(st.lists(st.integers(1, 100000), min_size=nt, max_size=nt))
        g['kind'] = draw(pick('plan', 'section', 'long', 'both'))
        g['s'] = draw(st.integers(0, (nt - 1) // 2)) if draw(st.booleans()) else draw(st.integers(0, nt - 1))
        g['e'] = draw(st.one_of(st.none(), st.integers(g['s'] + 1, nt + 3)))
        g['r'] = draw(pick(1, 1, 2, 3))
        g['fps'] = draw(pick(5.0, 2.0, 12.5))
        g['at'] = draw(fl(0.0, 1.0))
        g['aoi'] = draw(st.booleans())
        g['cli'] = draw(st.integers(0, 2)) == 0
        g['defaults'] = draw(st.booleans())
        return g
    return s()


def snapshot(fig):
    """Everything drawn: lines, areas and time labels of each axes."""
    out = []
    for ax in fig.axes:
        out.append({'lines': [v01.xy(ln) for ln in ax.get_lines()], 'areas': [np.asarray(p.get_xy(), float) for p in ax.patches if hasattr(p, 'get_xy') and
                                                                              np.ndim(p.get_xy()) == 2],
                    'time': ax.get_title(loc='right'), 'lim': (ax.get_xlim(), ax.get_ylim())})
    st_ = getattr(fig, '_suptitle', None)
    return out, st_.get_text() if st_ is not None else ''


def recorder(frames):
    from matplotlib import animation

    class Recorder(animation.AbstractMovieWriter):
        @classmethod
        def isAvailable(cls):
            return True

        def setup(self, fig, outfile, dpi=None):
            super().setup(fig, outfile, dpi)
            frames.append(('setup', str(outfile), self.fps))

        def grab_frame(self, **kw):
            frames.append(snapshot(self.fig))

        def finish(self):
            pass
    return Recorder


def same(got, want, what):
    (ga, gt), (wa, wt) = got, want
    need(gt == wt, '%s: labelled "%s", expected "%s"', what, gt, wt)
    need(len(ga) == len(wa), '%s: %d axes, expected %d', what, len(ga), len(wa))
    for i, (g, w) in enumerate(zip(ga, wa)):
        need(g['time'] == w['time'], '%s: labelled "%s", expected "%s"', what, g['time'], w['time'])
        for k in ('lines', 'areas'):
            need(len(g[k]) == len(w[k]), '%s: %d %s drawn, expected %d', what, len(g[k]), k, len(w[k]))
            for j, (a, b) in enumerate(zip(g[k], w[k])):
                sc = float(np.nanmax(np.abs(b))) if b.size and not np.all(np.isnan(b)) else 0.0
                close(a, b, '%s: %s %d' % (what, k, j), 1e-4, 1e-4 * (1 + min(sc, 200.0)))


def check(c):
    import logging
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    import netCDF4
    import pandas as pd
    from matplotlib import animation
    from hapuamod import animate
    from hapuamod import visualise as vis
    D = v01.states(c)
    base = gen.clean(c)
    P = ol.physical()
    phys = dict(P, RiverWidth=base['pars']['RiverWidth'], SpitWidth=base['pars']['SpitWidth'], MinOutletWidth=base['pars']['MinOutletWidth'],
                MaxOutletElev=base['pars']['MaxOutletElev'], BeachTopElev=base['pars']['BeachTopElev'])
    X = D[0]['X']
    n = X.size
    times, t = [], pd.Timestamp('2010-02-03')
    for k in c['gap']:
        times.append(t)
        t = t + pd.Timedelta(seconds=60 * k)
    grid = {'dx': c['dx'], 'n': n, 'k0': int(round(X[0] / c['dx'])), 'nr': len(base['riv'])}
    nt = len(D)
    with cl.folder('v02') as folder:
        p = os.path.join(folder, 'r.nc')
        with mock.patch.object(ol, 'physical', lambda: dict(phys)):
            ol.create(p, grid, times[0])
        stored = []
        for i, (d, t, sea) in enumerate(zip(D, times, c['sea'])):
            f = 1.0 if i == 0 else c['upd'][i - 1]['hf']
            closed = d['closed']
            od = np.array(base['odep'], float) * f
            ov = np.array(base['ovel'], float)
            oed, oev = np.array(base['oedep'], float) * f, np.array(base['oevel'], float)
            if closed:
                od, ov, oed, oev = od * np.nan, ov * np.nan, oed * np.nan, oev * np.nan
            rz = np.array(base['riv'], float)
            rdep = np.array(base['rdep'], float) * f
            nan = np.full(n, np.nan)
            s = {'Y': d['Y'], 'Z': d['Z'], 'lwl': np.array(base['lwl'], float), 'lvel': np.array(base['lvel'], float), 'lbed': nan, 'odep': od, 'ovel': ov,
                 'obed': nan, 'lst': np.zeros(n - 1), 'cst': np.zeros(n), 'ow': np.zeros(n), 'rz': rz, 'rdep': rdep, 'rvel': np.array(base['rvel'], float),
                 'rbed': np.zeros(rz.size), 'oex': d['oex'].copy(), 'oez': base['oee'], 'oew': d['oew'], 'oed': oed, 'oev': oev,
                 'oeb': np.array([np.nan, np.nan]), 'sea': sea, 'flow': 50.0, 'hs': 1.0, 'edir': 0.1, 'closed': closed}
            ol.put(p, t, s)
            stored.append(s)
        end = nt if c['e'] is None else min(c['e'], nt)
        want = list(range(c['s'], end, c['r']))
        at = float(np.round(X[0] + c['at'] * (X[-1] - X[0]), 3))
        near = np.argsort(np.abs(X - at), kind='stable')
        kind = 'section' if c['kind'] == 'both' else c['kind']
        if kind == 'section' and abs(abs(X[near[0]] - at) - abs(X[near[1]] - at)) < 1e-3:
            raise Discard()
        aoi = (float(X[1]), float(X[-2]), -200.0, 100.0) if c['aoi'] else None
        target = os.path.join(folder, 'film.mp4')
        frames = []
        kw = {'StartTimestep': c['s'], 'ResampleInt': c['r'], 'FrameRate': c['fps']}
        if c['e'] is not None:
            kw['EndTimestep'] = c['e']
        if aoi:
            kw['AreaOfInterest'] = aoi
        if kind == 'section':
            kw['TransectX'] = at
        if c['kind'] in ('long', 'both'):
            kw['Longsection'] = True
        if c['defaults']:
            for k, dv in (('StartTimestep', 0), ('ResampleInt', 1), ('FrameRate', 5.0)):
                if kw[k] == dv:
                    kw.pop(k)
        what = 'animation (%s)' % ', '.join('%s=%s' % kv for kv in sorted(kw.items()))
        writers = animation.writers
        old = dict(writers._registered)
        root = logging.getLogger()
        handlers, level = list(root.handlers), root.level
        try:
            writers._registered[matplotlib.rcParams['animation.writer']] = recorder(frames)
            with sut(what), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if c['cli']:
                    av = [p, target]
                    for k, o in (('StartTimestep', '-s'), ('EndTimestep', '-e'), ('ResampleInt', '-r'), ('FrameRate', '-f'), ('TransectX', '--TransectX')):
                        if k in kw:
                            # a negative number needs the = form
                            av += ['%s=%r' % (o, kw[k])] if o.startswith('--') else [o, repr(kw[k])]
                    if aoi:
                        av += ['-a'] + [repr(v) for v in aoi]
                    if kw.get('Longsection'):
                        av.append('-l')
                    with mock.patch.object(sys, 'argv', ['animate'] + av), mock.patch.object(sys, 'stderr', open(os.devnull, 'w')):
                        runpy.run_module('hapuamod.animate', run_name='__main__')
                else:
                    animate.main(p, target, **kw)
            plt.close('all')
            need(frames and frames[0][0] == 'setup', '%s: no film was written', what)
            need(frames[0][1] == target, '%s: film written to %s', what, frames[0][1])
            need(abs(frames[0][2] - c['fps']) < 1e-9, '%s: frame rate %s', what, frames[0][2])
            got = frames[1:]
            need(len(got) == len(want), '%s of %d results: %d frames, expected %d', what, nt, len(got), len(want))
            for j, i in enumerate(want):
                d, s = D[i], stored[i]
                w = '%s frame %d' % (what, j)
                tm = times[i].to_pydatetime()
                if kind == 'plan':
                    f = vis.modelView(X, d['Y'], d['oex'], d['oew'], d['chan'], phys['RiverWidth'], phys['SpitWidth'], AreaOfInterest=aoi,
                                      Closed=d['closed'], PlotTime=tm)
                    fig = f['PlanFig']
                elif kind == 'section':
                    f = vis.newTransectFig(X, d['Y'], d['Z'], s['lwl'], s['odep'] + d['Z'][:, 1], c['sea'][i], phys['BeachSlope'], phys['BackshoreElev'],
                                           phys['ClosureDepth'], phys['BeachTopElev'], at, PlotTime=tm, AreaOfInterest=aoi)
                    fig = f['TransFig']
                else:
                    q = dict(base, Y=d['Y'].tolist(), Z=d['Z'].tolist(), oew=s['oew'], closed=d['closed'], odep=s['odep'].tolist(), ovel=s['ovel'].tolist(),
                             oedep=[s['oed'][0], s['oed'][0] * np.nan], oevel=[s['oev'][0], s['oev'][0] * np.nan], rdep=s['rdep'].tolist())
                    r = rivlib.reference(q)
                    f = vis.longSection(*[np.array(r[k], float) for k in ('dx', 'elev', 'width', 'dep', 'vel')], PlotTime=tm, AreaOfInterest=aoi)
                    fig = f['RivFig']
                same(got[j], snapshot(fig), w)
                if aoi and j == 0:
                    for (a, b) in zip(got[j][0][:1], snapshot(fig)[0][:1]):
                        close(np.array(a['lim']), np.array(b['lim']), w + ': area shown', 1e-6, 1e-6)
                plt.close(fig)
        finally:
            plt.close('all')
            writers._registered.clear()
            writers._registered.update(old)
            root.handlers[:] = handlers
            root.setLevel(level)
        with netCDF4.Dataset(p) as nc:
            need(nc.dimensions['time'].size == nt, '%s changed the results file', what)
    return {'nontrivial': len(want) > 1, 'classes': [c['kind'], 'command line' if c['cli'] else 'main']}
