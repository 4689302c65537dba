"""M02 adaptive morphological timestep and change limit."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import morlib

ID = 'M02'
RULE = ('random coasts with forcing magnitudes over eight decades, limits, minima and maxima (also not powers of two '
        'apart); non-trivial = the timestep changes or the change is limited')
N = {'quick': 3000, 'thorough': 90000}


def tweak(draw, g):
    f = draw(logf(1e-6, 300.0))
    for k in ('bed', 'lst', 'cst'):
        g[k] = [v * f for v in g[k]]
    if not g['closed'] and draw(st.integers(0, 3)) == 0:
        # drift into the mouth about balances its erosion: the outlet end migrates without changing its width
        q = draw(logf(1e-4, 1.0))
        g['lst'] = [q if draw(st.booleans()) else -q] * len(g['lst'])
        g['bed'] = [0.0] * (len(g['bed']) - 1) + [q * draw(pick(1.0, 0.9, 1.1))]
        g['cst'] = [0.0] * len(g['cst'])
        g['lastbed'] = g['bed'][-1]
    g['num'] = {'MaxMorChange': draw(pick(0.1, 0.02, 0.5, 3.0))}


def strategy(tier):
    return morlib.strategy(tier, tweak=tweak, thin=0.0, relics=False)


def check(c):
    s = morlib.prepare(c)
    r = morlib.reference(s)
    g = morlib.call(s)
    dt, lo, hi, start = g['dt'], s['dtmin'], s['dtmax'], s['mordt']
    need(lo - 1e-9 <= dt <= hi + 1e-9, 'timestep %.9g s outside %.9g - %.9g', dt, lo, hi)
    k = math.log2(dt / start)
    need(abs(k - round(k)) < 1e-6, 'timestep %.9g s is not halvings or doublings of %.9g', dt, start)
    plain = not (r['events'] - morlib.PLAIN)
    if plain:
        mc = s['num']['MaxMorChange']
        d = [abs(g['Y'] - np.array(s['Y'])), abs(g['Z'] - np.array(s['Z'])), abs(g['riv'] - np.array(s['riv'])),
             abs(np.array([g['oew'] - s['oew'], g['oee'] - s['oee'], g['oex'][1] - s['oex'][1]]))]
        m = max(float(np.nanmax(v)) for v in d)
        need(m <= mc * (1 + 1e-6) + 1e-9, 'change of %.9g m exceeds the limit %.9g m', m, mc)
        if dt * 2 <= hi * (1 - 1e-9):
            need(m >= mc / 2 * (1 - 1e-6) - 1e-9, 'timestep not increased: largest change %.9g m, limit %.9g m', m, mc)
    morlib.compare(g, r)
    cl = [e for e in r['events'] if e in morlib.PLAIN] + (['plain'] if plain else [])
    if hi / lo != 2 ** round(math.log2(hi / lo)):
        cl.append('max-not-power-of-two')
    return {'nontrivial': bool(r['events'] & morlib.PLAIN), 'classes': cl}
