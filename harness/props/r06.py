"""R06 closure detection."""
import numpy as np
from hypothesis import strategies as st
from core import *
import gen
import rivlib

ID = 'R06'
RULE = ('coasts whose outlet/lagoon/outlet end widths are placed on, just below, just above or far from the closure '
        'width in random subsets of transects; non-trivial = at least one width within 1% of the threshold or closed')
N = {'quick': 3200, 'thorough': 100000}


def strategy(tier):
    @st.composite
    def s(draw):
        g = gen.geometry(draw, thin=0.0, gaps=False, relics=draw(st.booleans()), mode=draw(pick('open', 'open', 'any')))
        gen.hydraulics(draw, g)
        m = g['pars']['MinOutletWidth']
        opts = [m, float(np.nextafter(m, 0)), float(np.nextafter(m, 9)), m * 0.999, m * 1.001, 0.0, m / 2, -0.3, m * 2]
        n = len(g['X'])
        dens = draw(pick(1, 0, 3, 8))
        on = draw(ints(n, 15))
        k = draw(ints(n, len(opts) - 1))
        on2 = draw(ints(n, 15))
        k2 = draw(ints(n, len(opts) - 1))
        near = False
        for i in range(n):
            y = g['Y'][i]
            if y[1] is not None and on[i] >= 16 - dens:
                # whole numbers so that the generated width is exactly the intended one
                y[2] = float(np.round(y[2]))
                y[1] = y[2] + opts[k[i]]
                near = True
            if on2[i] >= 16 - dens and (i != g['x0'] or k2[i] in (0, 2, 4, 8)):
                y[4] = float(np.round(y[4]))
                y[3] = y[4] + max(0.0, opts[k2[i]])
                near = True
        if draw(st.integers(0, 5)) == 0:
            g['oew'] = opts[draw(st.integers(0, len(opts) - 1))]
            near = True
        g['near'] = near
        return g
    return s()



def check(c):
    s = gen.clean(c)
    from ref_riv import Margin, assemble
    try:
        r = assemble(s, Margin())     # thresholds are met exactly: same subtraction as any implementation
    except ValueError:
        raise Discard
    g = rivlib.call(s)
    rivlib.compare(g, r)
    n = len(s['X'])
    minw = s['pars']['MinOutletWidth']
    # direct statement of the rule, independent of the assembled channel
    if not s['closed']:
        lo, hi = sorted(s['oex'])
        thin = s['oew'] <= minw
        for i in range(n):
            if lo <= s['X'][i] <= hi and s['Y'][i][1] - s['Y'][i][2] <= minw:
                thin = True
        x0, e0 = s['x0'], s['oex'][0]
        path = [i for i in range(n) if (0 <= s['X'][i] < e0) or (e0 < s['X'][i] <= 0)] or [x0]
        for i in path:
            if s['Y'][i][3] - s['Y'][i][4] < minw:
                thin = True
        need(g['closed'] == thin, 'outlet %s although the flow path is %s', 'closed' if g['closed'] else 'open',
             'too narrow' if thin else 'wide enough')
    else:
        need(g['closed'], 'a closed lagoon opened by itself')
    if g['closed']:
        need(len(g['chan']) == 0 and not np.any(np.asarray(g['flag']) > 1), 'closed lagoon keeps an outlet channel')
        need(float(np.asarray(g['vel'])[-1]) == 0.0, 'flow out of the closed end')
        need(int(g['online'][0]) == s['x0'], 'closed lagoon does not start at the river')
    return {'nontrivial': c['near'], 'classes': sorted('closed-by-' + v for v in r['cause']) or ['open']}
