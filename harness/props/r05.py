"""R05 combined channel assembly."""
import numpy as np
from hypothesis import strategies as st
from core import *
import gen
import rivlib

ID = 'R05'
RULE = ('random coasts (outlet left/right/in line, angled either way, ending on or between transects, open/closed, '
        'gaps in the lagoon, relic channels); non-trivial = off-line lagoon area exists or the outlet crosses >1 transect')
N = {'quick': 3200, 'thorough': 100000}


def strategy(tier):
    @st.composite
    def s(draw):
        g = gen.geometry(draw, thin=draw(pick(0.0, 0.05, 0.15)), gaps=draw(st.booleans()))
        # lagoon pinched off between the river and an open outlet
        mid = [i for i in range(min(g['x0'], g['us']) + 1, max(g['x0'], g['us']))]
        if not g['closed'] and mid and draw(st.integers(0, 3)) == 0:
            i = draw(st.sampled_from(mid))
            g['Y'][i][4] = g['Y'][i][3] - draw(pick(0.5, 0.0, 0.99, -0.1)) * g['pars']['MinOutletWidth']
        gen.hydraulics(draw, g)
        # new cross-sections have no hydraulics yet
        if draw(st.integers(0, 2)) == 0 and not g['closed']:
            drop = draw(ints(len(g['X']), 2))
            for i, v in enumerate(drop):
                if v == 2:
                    g['odep'][i] = g['ovel'][i] = None
            if draw(st.booleans()):
                g['oedep'][0] = g['oevel'][0] = None
        g['post'] = draw(st.integers(0, 5)) == 0   # single valued end hydraulics as stored in result files
        return g
    return s()


def check(c):
    s = gen.clean(c)
    r = rivlib.reference(s)
    g = rivlib.call(s)
    rivlib.compare(g, r)
    # balance of lagoon area and barrier length over transects
    dx, X, n = s['dx'], s['X'], len(s['X'])
    lagw = [s['Y'][i][3] - s['Y'][i][4] for i in range(n)]
    off = [i for i in range(n) if i not in r['online']]
    if not s['closed'] and s['oex'][0] != 0:
        off = [i for i in off if X[i] != s['oex'][0]]   # belongs to the outlet
    if not (r['closed'] and not s['closed']):
        close(np.sum(g['area']), sum(lagw[i] * dx for i in off), 'total off-line lagoon area', 1e-9, 1e-6)
        close(np.sum(g['len']), dx * (len(r['online']) + sum(1 for i in off if lagw[i] > 0)),
              'total barrier length', 1e-9, 1e-6)
    if c['post'] and not s['closed'] and s['oedep'][0] == s['oedep'][0]:
        # reading back stored results gives no values for the sea end: a copy of its neighbour is used
        p = dict(s, oedep=s['oedep'][:1], oevel=s['oevel'][:1])
        q = dict(s, oedep=[s['oedep'][0], float('nan')], oevel=[s['oevel'][0], float('nan')])
        rivlib.compare(rivlib.call(p, 'assembling the channel from stored results'), rivlib.reference(q))
    # left-right mirror image gives the same channel (except in line: side is a convention)
    if s['oex'][0] == s['oex'][0] and s['oex'][0] != 0:
        m = rivlib.call(rivlib.mirrored(s), 'assembling the mirrored channel')
        need(m['closed'] == g['closed'], 'mirrored channel differs (closure)')
        need([n - 1 - int(v) for v in m['online']] == [int(v) for v in g['online']] and
             [n - 1 - int(v) for v in m['chan']] == [int(v) for v in g['chan']], 'mirrored channel takes another path')
        for k in ('dx', 'elev', 'width', 'area', 'len', 'dep', 'vel'):
            close(m[k], g[k], 'mirrored channel ' + k, 1e-9, 1e-8)
    side = 'in-line' if s['oex'][0] == 0 else 'right' if s['oex'][0] > 0 else 'left'
    ang = 'angled-right' if s['oex'][0] < s['oex'][1] else 'angled-left' if s['oex'][0] > s['oex'][1] else 'straight'
    cl = [side, 'closed' if r['closed'] else 'open']
    if 'lagoon' in r['cause']:
        cl.append('pinched-lagoon')
    if not r['closed']:
        cl.append(ang)
        if len(r['chan']) > 1:
            cl.append('long-outlet')
    return {'nontrivial': sum(r['area']) > 0 or len(r['chan']) > 1, 'classes': cl}
