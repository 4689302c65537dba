"""M06 outlet elongation, truncation and the domain edges."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import morlib

ID = 'M06'
RULE = ('random open outlets angled either way, ends placed just short of / on transects and the domain edge, strong drift '
        'and large change limits (several transects per step), channels about to meet the lagoon or the sea; '
        'non-trivial = the outlet end moved past a transect, was truncated or stopped at the edge')
N = {'quick': 3200, 'thorough': 100000}


def first(draw):
    return {'mode': 'open', 'thin': draw(pick(0.0, 0.1, 0.35)), 'relics': draw(st.booleans()), 'gaps': draw(st.booleans()),
            'nmax': draw(pick(5, 7, 9))}


def tweak(draw, g):
    n, dx, X = len(g['X']), g['dx'], g['X']
    g['num'] = {'MaxMorChange': draw(pick(0.5, 5.0, 60.0))}
    k = draw(st.integers(0, 3))
    d = 1 if g['oex'][1] > g['oex'][0] else -1
    if k == 0:      # end just short of the next transect
        last = g['chan0'][-1]
        if 1 < last < n - 2:
            g['oex'][1] = X[last] + d * dx * draw(pick(0.999, 0.99, 0.97, 0.9))
    elif k == 1:    # strong drift along the coast
        sg = draw(pick(1, -1))
        m = draw(pick(0.5, 5.0, 40.0))
        g['lst'] = [sg * m * (0.5 + abs(v)) for v in draw(sfls(1.0, n - 1, 499))]
        g['mordt'] = g['dtmin']
        g['oew'] = max(g['oew'], 35.0)
    elif k == 2 and len(g['chan0']) > 1:    # channel about to be truncated
        t = draw(ints(n, draw(pick(5, 4))))
        e = draw(fls(0.001, 0.05, n, 499))
        for i in g['chan0']:
            y = g['Y'][i]
            if t[i] == 5:
                y[0] = y[1] + e[i]
            elif t[i] == 4 and i != g['x0']:
                y[3] = y[2] - e[i]
                y[4] = min(y[4], y[3])
            elif t[i] == 3 and i != g['x0']:    # no lagoon behind: outlet meets the cliff
                y[3] = y[4] = y[2] - e[i]
    g['pars']['OutletBankEroFac'] = draw(pick(0.5, 1.0, 2.0))


def strategy(tier):
    return morlib.strategy(tier, tweak=tweak, first=first)


KINDS = {'extend', 'edge-left', 'edge-right', 'lagoonward-truncation', 'lagoon-extended', 'seaward-truncation',
         'prevent-seaward', 'prevent-lagoonward', 'pushed-into-cliff'}


def check(c):
    s = morlib.prepare(c)
    if s['closed']:
        raise Discard
    r = morlib.reference(s)
    g = morlib.call(s)
    X = s['X']
    need(X[1] <= g['oex'][1] <= X[-2], 'outlet end at %.6g left the domain (%.6g .. %.6g)', g['oex'][1], X[1], X[-2])
    lo, hi = sorted(g['oex'])
    chan = [i for i in range(len(X)) if lo <= X[i] <= hi]
    need(chan, 'outlet crosses no transect')
    if not r['breach'] and 'channel-levelled' not in r['events']:
        both = 'lagoonward-truncation' in r['events']        # and the sea reaches what is left of the channel
        for i in chan:
            if both and 'merge-shore' in r['tev'].get(i, ()):
                continue
            need(not np.isnan(g['Y'][i, 1]), 'no channel at transect %d crossed by the outlet', i)
    morlib.compare(g, r)
    ev = r['events'] & KINDS
    cl = sorted(ev)
    nx = sum(1 for v in r['tev'].values() if 'extend' in v)
    if 'several-collisions' in r['events']:
        cl.append('several-collisions')
    if nx > 1:
        cl.append('extend-several')
    return {'nontrivial': bool(ev), 'classes': cl}
