"""M05 breaches: where, when and what they create."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import morlib

ID = 'M05'
RULE = ('random coasts biased to failing barriers: crest/water level differences of either sign at random transects, '
        'near-eroded barriers, closed and open outlets, relic channels, gaps; non-trivial = barrier failed somewhere')
N = {'quick': 3200, 'thorough': 100000}


def first(draw):
    return {'mode': draw(pick('any', 'closed', 'open')), 'thin': draw(pick(0.05, 0.2, 0.4)),
            'relics': draw(st.booleans()), 'gaps': draw(st.booleans())}


def tweak(draw, g):
    n = len(g['X'])
    k = draw(st.integers(0, 3))
    if k == 0:      # water near the crests
        d = draw(sfls(0.3, n, 997))
        for i in range(n):
            if g['Z'][i][0] < 5.0:
                g['lwl'][i] = max(g['Z'][i][3] + 0.05, g['Z'][i][0] + d[i] - 0.15)
    elif k == 1:    # a few low spots in a high barrier
        low = draw(ints(n, 9))
        for i in range(n):
            if low[i] < 8:
                g['Z'][i][0] += 4.0
                if g['Z'][i][2] is not None:
                    g['Z'][i][2] += 4.0
    elif k == 2:    # barrier about to be eroded through in places, high enough not to be overtopped
        thin = draw(ints(n, 5))
        over = draw(fls(0.001, 0.05, n, 499))
        for i in range(n):
            g['Z'][i][0] += 3.0
            if g['Z'][i][2] is not None:
                g['Z'][i][2] += 3.0
            if thin[i] == 5:
                y = g['Y'][i]
                edge = y[3] if y[1] is None else (y[1] if g['closed'] else None)
                if edge is not None:
                    y[0] = edge + over[i]


def strategy(tier):
    return morlib.strategy(tier, tweak=tweak, first=first)


def check(c):
    s = morlib.prepare(c)
    r = morlib.reference(s)
    g = morlib.call(s)
    morlib.compare(g, r)
    X, n = s['X'], len(s['X'])
    cl = [e for e in r['events'] if e.startswith('breach') or e in ('barrier-restored', 'spill-no-breach', 'merge-shore')]
    fails = r['events'] & {'barrier-eroded', 'spill', 'breach-relic-erosion'}
    if g['breach']:
        minw = s['pars']['MinOutletWidth']
        hit = [i for i in range(n) if X[i] == g['oex'][1]]
        need(len(hit) == 1 and (r['reused'] or g['oex'][0] == g['oex'][1]), 'new outlet (%r) does not end at one transect', list(g['oex']))
        need(g['oew'] >= 2 * minw * (1 - 1e-12), 'new outlet end narrower than twice the closure width')
        y, z = g['Y'][hit[0]], g['Z'][hit[0]]
        need(y[0] > y[1] > y[2] > y[3] >= y[4] or (y[0] > y[1] > y[2] and y[3] >= y[4]), 'new outlet does not fit: %r', list(y))
        need(not np.isnan(z).any(), 'missing level at new outlet: %r', list(z))
        if not s['closed'] and not r['conn'][hit[0]]:
            need(abs(X[hit[0]]) < abs(s['oex'][0]) + 1e-9 or min(abs(v) for v in r['gradual'][2]) > abs(X[hit[0]]),
                 'open outlet replaced by a breach further from the river')
    else:
        need(not (fails and not fails <= {'spill', 'barrier-eroded'}), 'relic channel breached without breach flag')
    return {'nontrivial': bool(fails), 'classes': cl + (['no-failure'] if not fails else [])}
