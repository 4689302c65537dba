"""M07 local sediment conservation of barrier rearrangements."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import morlib

ID = 'M07'
RULE = ('random coasts biased to relic channels about to meet lagoon or sea, overwash into closed channels and narrow lagoons, '
        'shoreline at the cliff; non-trivial = at least one conservative rearrangement checked by volume')
N = {'quick': 3200, 'thorough': 100000}
CHECKED = {'merge-lagoon', 'merge-shore', 'overwash-front', 'overwash-back', 'channel-levelled', 'cliff', 'cliff-again',
           'prevent-seaward', 'lagoon-filled'}


def first(draw):
    return {'mode': draw(pick('any', 'closed', 'open')), 'thin': draw(pick(0.1, 0.25)), 'relics': True,
            'gaps': draw(st.booleans())}


def tweak(draw, g):
    n = len(g['X'])
    k = draw(st.integers(0, 3))
    e = draw(fls(0.0005, 0.05, n, 499))
    t = draw(ints(n, 5))
    if k == 0:      # overwash into channels / lagoons
        g['cst'] = [0.02 + 0.2 * v for v in e]
        g['ow'] = [1.0 if (y[1] is not None or y[3] > y[4]) else 0.0 for y in g['Y']]
        g['num'] = {'MaxMorChange': draw(pick(0.5, 3.0))}
        for i, y in enumerate(g['Y']):
            if t[i] == 5 and y[1] is None and y[3] > y[4] and i != g['x0']:
                y[4] = y[3] - e[i]
            elif t[i] >= 3 and y[1] is not None and i not in g['chan0']:
                y[2] = y[1] - e[i] * (t[i] - 3)
                y[3] = min(y[3], y[2] - 0.3)
                y[4] = min(y[4], y[3])
    elif k == 1:    # shoreline, channel banks and cliff close together
        for i, y in enumerate(g['Y']):
            if t[i] == 5:
                if y[1] is not None:
                    y[0] = y[1] + e[i]
                elif y[3] == y[4]:
                    y[0] = y[3] + e[i]
            elif t[i] == 4 and y[1] is not None and i != g['x0']:
                y[3] = y[2] - e[i]
                y[4] = min(y[4], y[3])
    for z in g['Z']:    # few breaches by spilling
        z[0] += 2.0
        if z[2] is not None:
            z[2] += 2.0


def strategy(tier):
    return morlib.strategy(tier, tweak=tweak, first=first)


def volume(y, z, C, B):
    """Cross-section area above closure depth (relative to an inland datum at Y=0)."""
    v = (B + C) * y[4] + (z[3] + C) * (y[3] - y[4])
    if math.isnan(y[1]):
        return v + (z[0] + C) * (y[0] - y[3])
    return v + (z[2] + C) * (y[2] - y[3]) + (z[1] + C) * (y[1] - y[2]) + (z[0] + C) * (y[0] - y[1])


def slack(what, y0, z0, y, z):
    """Largest imbalance inherent in the documented rule (start of step sizes, overlap at the moment of contact)."""
    has0 = not math.isnan(y0[1])
    crest0 = y0[0] - (y0[1] if has0 else y0[3])
    back0 = z0[0] - (z0[1] if has0 else z0[3])
    if what == 'merge-lagoon':
        return (y[3] - y[2]) * abs(z[2] - z[0])
    if what == 'merge-shore':
        return (y[1] - y[0]) * abs(z[2] - z[0])
    if what in ('cliff', 'cliff-again'):
        return abs(y[4] - y[0] + 0.001) * abs(z[0] - z0[0])
    if what in ('overwash-front', 'overwash-back', 'channel-levelled'):
        w = y[2] - y[1]
        back, crest = z[0] - z[1], y[0] - y[2]
        return w * abs(back - back0) + (w * back0 / crest0 + abs(z[2] - z[0])) * abs(crest - crest0) + \
            max(0.0, y[3] - y[2]) * abs(z[2] - z[0])
    if what == 'lagoon-filled':
        w = y[4] - y[3]
        back, crest = z[0] - z[3], y[0] - y[4]
        return w * abs(back - back0) + w * abs(back0) / crest0 * abs(crest - crest0)
    return 0.0


def check(c):
    s = morlib.prepare(c)
    r = morlib.reference(s)
    g = morlib.call(s)
    p = s['pars']
    C, B = p['ClosureDepth'], p['BackshoreElev']
    gy, gz, _ = r['gradual']
    cl = set()
    for i in range(len(s['X'])):
        ev = r['tev'].get(i, [])
        y, z = [float(v) for v in g['Y'][i]], [float(v) for v in g['Z'][i]]
        if not ev:
            close(y, gy[i], 'plan geometry of a transect where nothing is rearranged (transect %d)' % i, 1e-9, 1e-8)
            close(z, gz[i], 'levels of a transect where nothing is rearranged (transect %d)' % i, 1e-9, 1e-8)
        elif len(ev) == 1 and ev[0] in CHECKED:
            e = ev[0]
            if e == 'cliff' and abs(gy[i][3] - gy[i][4]) > 1e-12:
                continue     # a lagoon vanishes too: the documented rule is not conservative
            if e == 'cliff' and not math.isnan(gy[i][1]):
                continue
            a, b = volume(gy[i], gz[i], C, B), volume(y, z, C, B)
            tol = 1.001 * slack(e, s['Y'][i], s['Z'][i], gy[i], gz[i]) + 1e-7 * (1 + abs(a)) + 1e-7
            need(abs(b - a) <= tol, '%s at transect %d changes the sediment volume by %.9g m3/m (at most %.3g expected)',
                 e, i, b - a, tol)
            cl.add('volume:' + e)
    morlib.compare(g, r)
    return {'nontrivial': bool(cl), 'classes': sorted(cl)}
