"""R07 storing hydraulics/bedload on transects and re-assembling the channel."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import gen
import ref_riv
import rivlib

ID = 'R07'
RULE = ('random coasts with random channel hydraulics and bedload stored, then the channel is re-assembled unchanged or '
        'after the outlet was extended, shortened, moved (breach), closed or re-opened; non-trivial = layout changed '
        'between storing and assembling, or disconnected lagoon exists')
N = {'quick': 3000, 'thorough': 90000}
CHANGES = ['none', 'extend', 'shorten', 'shorten-up', 'breach', 'close', 'reopen', 'none']


def strategy(tier):
    @st.composite
    def s(draw):
        g = gen.geometry(draw, thin=0.0, gaps=draw(st.booleans()), relics=draw(st.booleans()))
        gen.hydraulics(draw, g)
        m = 2 * len(g['X']) + 8
        g['newdep'] = draw(fls(0.1, 4.0, m, 397))
        g['newvel'] = draw(sfls(2.0, m, 499))
        g['bed'] = draw(sfls(1.0, m, 499))
        g['change'] = draw(pick(*CHANGES))
        g['arg'] = draw(st.integers(0, 5))
        return g
    return s()


def modify(s, change, k):
    """Moves the outlet the way the morphology does (geometry only)."""
    X = s['X']
    n = len(X)
    t = copy.deepcopy(s)
    if change == 'none':
        return t
    if change == 'close':
        t['closed'] = True
        return t
    if change in ('breach', 'reopen'):
        cand = [i for i in range(1, n - 1) if s['Y'][i][3] - s['Y'][i][4] > 0]
        i = cand[k % len(cand)]
        t['closed'] = False
        t['oex'] = [X[i], X[i]]
        t['oew'] = max(s['oew'], 2 * s['pars']['MinOutletWidth'])
        if t['Y'][i][1] != t['Y'][i][1]:
            t['Y'][i][1] = t['Y'][i][3] + 2 + t['oew']
            t['Y'][i][2] = t['Y'][i][3] + 2
            t['Z'][i][1] = -0.7
            t['Z'][i][2] = t['Z'][i][0]
        return t
    if s['closed']:
        raise Discard
    d = 1 if s['oex'][0] < s['oex'][1] else -1
    chan = ref_riv.channel_transects(X, s['oex'])
    if change == 'extend':
        steps = 1 + k % 2
        last = chan[-1]
        for j in range(1, steps + 1):
            i = last + d * j
            if not 1 <= i < n - 1:
                raise Discard
            t['Y'][i][1] = t['Y'][i][0] - 5.0
            t['Y'][i][2] = t['Y'][i][1] - t['oew']
            t['Z'][i][1] = t['oee']
            t['Z'][i][2] = t['Z'][i][0]
        t['oex'][1] = X[last + d * steps] + d * 0.25 * s['dx']
        return t
    if len(chan) < 2:
        raise Discard
    if change == 'shorten':
        i = chan[1 + k % (len(chan) - 1)]
        t['oex'][1] = X[i] - d * s['dx'] / 2
    else:
        i = chan[k % (len(chan) - 1)]
        t['oex'][0] = X[i + d]
    return t


def check(c):
    from hapuamod import riv
    s = gen.clean(c)
    r = rivlib.reference(s)
    n = len(s['X'])
    N_ = len(r['flag'])
    flag = np.array(r['flag'])
    closed = r['closed']
    dep = np.array(s['newdep'][:N_], float)
    vel = np.array(s['newvel'][:N_], float)
    online = np.array(r['online'], int)
    chan = np.array(r['chan'], int) if not closed else np.empty(0)
    lag_elev = np.array([z[3] for z in s['Z']], float)
    bed = np.array(s['bed'][:N_ - 1], float)
    args = (dep, vel, online, chan, flag, lag_elev, bed)
    keep = [a.copy() for a in args]
    with sut('storing hydraulics'):
        lwl, lvel, odep, ovel, oed, oev = riv.storeHydraulics(dep, vel, online, chan, flag, lag_elev, closed)
    with sut('storing bedload'):
        lb, ob, oeb = riv.storeBedload(bed, n, online, chan, flag, closed)
    for a, k in zip(args, keep):
        need(np.array_equal(a, k), 'storing results modified its inputs')
    # --- what each transect must hold
    nr = len(s['riv'])
    nl = len(r['online'])
    nan = float('nan')
    level = {i: dep[nr + k] + lag_elev[i] for k, i in enumerate(r['online'])}
    wl = []
    for i in range(n):
        j = min(r['online'], key=lambda q: abs(q - i))
        wl.append(level[j])
    close(lwl, wl, 'stored lagoon level', 1e-12, 1e-12)
    e = [nan] * n
    for k, i in enumerate(r['online']):
        e[i] = vel[nr + k]
    close(lvel, e, 'stored lagoon velocity', 0, 0)
    ed, ev, eb = [nan] * n, [nan] * n, [0.0] * n
    for k, i in enumerate(r['chan']):
        ed[i], ev[i], eb[i] = dep[nr + nl + k], vel[nr + nl + k], bed[nr + nl + k]
    close(odep, ed, 'stored outlet depth', 0, 0)
    close(ovel, ev, 'stored outlet velocity', 0, 0)
    close(ob, eb, 'stored outlet bedload', 0, 0)
    el = [0.0] * n
    for k, i in enumerate(r['online']):
        if nr + k < N_ - 1:
            el[i] = bed[nr + k]
    close(lb, el, 'stored lagoon bedload', 0, 0)
    close(np.ravel(oeb), [0.0 if closed else bed[-1]], 'stored outlet end bedload', 0, 0)
    close(oed, [nan, nan] if closed else dep[-2:], 'stored outlet end depth', 0, 0)
    close(oev, [nan, nan] if closed else vel[-2:], 'stored outlet end velocity', 0, 0)
    # --- next step: the channel is put together again
    t = dict(copy.deepcopy(s), closed=closed, rdep=list(dep[:nr]), rvel=list(vel[:nr]), lwl=wl, lvel=e, odep=ed, ovel=ev,
             oedep=[nan, nan] if closed else list(dep[-2:]), oevel=[nan, nan] if closed else list(vel[-2:]))
    change = c['change']
    if change == 'reopen' and not closed:
        change = 'none'
    if change == 'breach' and closed:
        change = 'reopen'
    t = modify(t, change, c['arg'])
    r2 = rivlib.reference(t)
    if min(r2['dep']) < 0.02:
        raise Discard    # no water where the channel is taken through
    t2 = dict(t, rdep=list(dep[:nr]), lwl=list(lwl), lvel=list(lvel), odep=list(odep), ovel=list(ovel),
              oedep=list(oed), oevel=list(oev))
    g2 = rivlib.call(t2, 're-assembling the channel')
    rivlib.compare(g2, r2)
    if change == 'none' and not (s['closed'] is False and closed):
        need(len(g2['dep']) == N_, 'channel changed by storing and re-assembling')
        close(g2['dep'], dep, 'depth after storing and re-assembling', 1e-9, 1e-9)
        v = vel.copy()
        if closed:
            v[-1] = 0.0
        close(g2['vel'], v, 'velocity after storing and re-assembling', 1e-9, 1e-9)
    return {'nontrivial': change != 'none' or nl < n - 2, 'classes': [change, 'closed' if closed else 'open']}
