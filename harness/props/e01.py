"""E01 simulations finish at the end time with outputs on schedule."""
import logging
import os
import re
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import simlib

ID = 'E01'
RULE = ('short simulations from default geometry, shapefiles or saved states (open, closed, narrow outlet), calm to stormy, with timesteps, '
        'durations and output intervals in any ratio; one of the two output files records every step; non-trivial = at least 4 steps')
N = {'quick': 130, 'thorough': 2500}
SHRINK_SECONDS = 60
ASSUMPTIONS = ['minimum morphological timestep of at most 20 s and flows the channel can carry, so that the adaptive timestep can resolve '
               'the changes (with coarser settings the model itself is numerically unstable)']


def strategy(tier):
    @st.composite
    def s(draw):
        c = draw(simlib.strategy(tier, plot=True))
        c['all'] = draw(pick('ts', 'ts', 'out'))
        if c['all'] == 'ts':
            c['tsint'] = 0.0
        else:
            c['outint'] = 0.0
        return c
    return s()


class Progress(logging.Handler):
    """The times reported to the user while the context lasts."""

    def __init__(self):
        super().__init__(logging.INFO)
        self.seen = []

    def emit(self, record):
        m = re.search(r'Time = (\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(?:\.\d+)?)', record.getMessage())
        if m:
            self.seen.append(m.group(1))

    def __enter__(self):
        root = logging.getLogger()
        self.was = root.level
        root.addHandler(self)
        root.setLevel(logging.INFO)
        return self

    def __exit__(self, *a):
        root = logging.getLogger()
        root.setLevel(self.was)
        root.removeHandler(self)


def check(c):
    import pandas as pd
    t0, t1 = simlib.period(c)
    with cl.folder('e01') as d:
        p = simlib.setup(d, c)
        with Progress() as log:
            simlib.run(d, p)
        f1, f2 = simlib.outputs(c)
        for f in (f1, f2):
            need(os.path.exists(os.path.join(d, f)), 'no output file %s', f)
        v1, a1 = simlib.results(os.path.join(d, f1))
        v2, a2 = simlib.results(os.path.join(d, f2))
    def sec(ts):
        return np.array([(t - t0).total_seconds() for t in ts])
    end = (t1 - t0).total_seconds()
    s1, s2 = sec(a1), sec(a2)
    for nm, s in (('results', s1), ('time series', s2)):
        need(s.size >= 1 and abs(s[0]) < 1e-4, '%s start at %s instead of %s', nm, s[:1], t0)
        need(np.all(np.diff(s) > 0), '%s times do not increase: %s', nm, s[np.argmin(np.diff(s)):][:2] if s.size > 1 else s)
        need(s[-1] < end + 1e-4, '%s go on to %g s after the end', nm, s[-1] - end)
    steps = s2 if c['all'] == 'ts' else s1
    need(abs(steps[-1] - end) < 1e-4, 'simulation ended %g s from its end time (%d steps)', steps[-1] - end, steps.size - 1)
    told = np.r_[0.0, sec([pd.Timestamp(x) for x in log.seen])]
    for nm, s, every in (('results', s1, c['outint']), ('time series', s2, c['tsint']), ('progress', told, c['logint'])):
        want, k = [0.0], 1
        for t in steps[1:]:
            if t >= every * k - 1e-6:
                want.append(t)
                k += 1
        amb = np.any(np.abs(steps[1:, None] - every * np.arange(1, len(want) + 2)[None, :]) < 1e-5) and every % 1e-3
        if not amb:
            need(len(want) == s.size and np.allclose(want, s, rtol=0, atol=1e-4), '%s written at %s s, expected %s s (interval %g s, steps %s)',
                 nm, s.tolist(), want, every, steps.tolist()[:12])
    # recorded timesteps
    if c['all'] == 'ts':
        close(v2['mordt'][1:], np.diff(s2), 'recorded timestep', 1e-6, 1e-4)
    dt = np.diff(steps)[:-1]
    need(np.all(dt >= c['mdmin'] - 1e-4) and np.all(dt <= max(c['mdmax'], c['mdmin']) + 1e-4), 'timesteps %s outside %g..%g s', dt, c['mdmin'], c['mdmax'])
    # saved open outlets always have finite geometry and hydraulics somewhere
    for k in ('shoreline_y', 'lagoon_y', 'cliff_y', 'barrier_crest_z', 'lagoon_bed_z', 'river_bed_z', 'river_wl', 'river_vel', 'cst', 'lst'):
        finite(v1[k], 'results ' + k)
    for k in ('sea_level', 'river_flow', 'lagoon_level', 'lagoon_outflow', 'sed_inflow', 'mordt'):
        finite(v2[k], 'time series ' + k)
    op = v1['outlet_closed'] == 0
    finite(v1['outlet_end_x'][op], 'ends of open outlets')
    finite(v1['outlet_end_width'][op], 'width of open outlets')
    cl_ = v2['outlet_closed'].astype(bool)
    return {'nontrivial': steps.size > 4, 'classes': [c['mode'], 'closes' if np.any(~cl_[:-1] & cl_[1:]) else 'opens' if np.any(cl_[:-1] & ~cl_[1:]) else 'same']
            + (['plotted'] if c['plot'] else []) + (['lagging'] if 0 < (c['outint'] if c['all'] == 'ts' else c['tsint']) < c['mdmin'] else [])}
