"""M01 gradual morphology change (sediment balance)."""
import math
import numpy as np
from core import *
import morlib

ID = 'M01'
RULE = ('random coasts (open/closed, outlets left/right/straight, relic channels, wide and narrow channels) and random '
        'bedload, longshore and overtopping transport; one step against the reference; non-trivial = no rearrangement '
        'takes place (pure gradual change) and something moves')
N = {'quick': 3000, 'thorough': 90000}


def first(draw):
    return {'thin': draw(pick(0.0, 0.0, 0.03)), 'relics': draw(st_bool), 'gaps': draw(st_bool)}


def tweak(draw, g):
    g['num'] = {'MaxMorChange': draw(pick(0.1, 0.5, 0.02))}
    n = len(g['X'])
    k = draw(pick(0, 1, 2, 3, 4))
    if k == 1:      # only river bedload
        g['lst'], g['cst'] = [0.0] * (n - 1), [0.0] * n
    elif k == 2:    # only longshore
        g['bed'], g['cst'] = [0.0] * len(g['bed']), [0.0] * n
    elif k == 3:    # only overtopping
        g['bed'], g['lst'] = [0.0] * len(g['bed']), [0.0] * (n - 1)


from hypothesis import strategies as st
st_bool = st.booleans()


def strategy(tier):
    return morlib.strategy(tier, quiet=0, tweak=tweak, first=first)


def budget(s, g, dt):
    """Overall shoreface budget away from the domain ends (longshore + outlet supply - overtopping)."""
    X, n, p = s['X'], len(s['X']), s['pars']
    got = 0.0
    for i in range(1, n - 1):
        got += (g['Y'][i, 0] - s['Y'][i][0]) * (p['ClosureDepth'] + s['Z'][i][0]) * s['dx']
    want = (s['lst'][0] - s['lst'][-1]) * dt
    want -= sum(s['cst'][1:-1]) * s['dx'] * dt
    terms = abs(want)
    if not s['closed']:
        L = p['OutletSedSpreadDist']
        rb = [i for i in range(n) if X[i] > s['oex'][1]][0]
        want -= abs(s['lst'][rb - 1]) * dt if (0 < (rb if s['lst'][rb - 1] > 0 else rb - 1) < n - 1) else 0.0
        want += sum(s['dx'] * s['bed'][-1] / L * max(0.0, 1 - abs(X[i] - s['oex'][1]) / L) for i in range(1, n - 1)) * dt
        terms += abs(s['lst'][rb - 1]) * dt + abs(s['bed'][-1]) * dt
    need(abs(got - want) <= 1e-7 * (1 + terms) + 1e-6, 'shoreface sediment budget: gained %.9g m3, supplied %.9g m3', got, want)


def check(c):
    s = morlib.prepare(c)
    r = morlib.reference(s)
    g = morlib.call(s)
    morlib.compare(g, r)
    plain = not (r['events'] - morlib.PLAIN)
    if plain and 'capped' not in r['events']:
        budget(s, g, r['dt'])
    moved = any(s['bed']) or any(s['lst']) or any(s['cst'])
    cl = ['closed' if s['closed'] else 'open', 'plain' if plain else 'rearranged']
    if plain and not s['closed']:
        cl.append('outlet-' + ('R' if s['oex'][0] < s['oex'][1] else 'L' if s['oex'][0] > s['oex'][1] else 'straight'))
    if plain:
        w = [s['ch']['width'][k] / s['ch']['dep'][k] > s['pars']['WidthDepthRatio'] for k in range(len(s['ch']['flag']))]
        cl.append('bed-erosion' if any(w) else 'bank-erosion')
    return {'nontrivial': plain and moved, 'classes': cl}
