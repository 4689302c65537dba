"""Independent scalar reference of one morphological step (harness oracle).

Written transect by transect from the documented behaviour: gradual change from river bedload,
longshore and cross-shore transport, adaptive timestep, then the discrete rearrangements.
"""
import copy
import math
from ref_riv import Margin, channel_transects

NAN = float('nan')
isnan = math.isnan


def rates(s):
    """Rates of change of every morphological variable."""
    X, Y, Z = s['X'], s['Y'], s['Z']
    n, dx, p = len(X), s['dx'], s['pars']
    closed = s['closed']
    ch = s['ch']
    rY = [[0.0] * 5 for _ in range(n)]
    rZ = [[0.0] * 4 for _ in range(n)]
    H = [p['ClosureDepth'] + Z[i][0] for i in range(n)]
    has = [not isnan(Y[i][1]) for i in range(n)]
    width_end = move = agg_end = 0.0
    bed = list(s['bed']) + ([0.0] if closed else [])
    # node k (1..) receives bed[k-1] and loses bed[k]
    riv_rate = [0.0] * len(s['riv'])
    last = len(ch['flag']) - (0 if closed else 1)
    nr = len(s['riv'])
    for k in range(1, last):
        dv = bed[k - 1] - bed[k]
        wide = ch['width'][k] / ch['dep'][k] > p['WidthDepthRatio']
        dep = max(dv, 0.0)
        ero = max(-dv, 0.0)
        ebed = ero if wide else 0.0
        ebank = 0.0 if wide else ero
        f = ch['flag'][k]
        if f == 0:
            riv_rate[k] = (dep - ero) / (p['RiverWidth'] * dx)
        elif f == 1:
            i = ch['online'][k - nr]
            rZ[i][3] += (dep - ebed) / ((Y[i][3] - Y[i][4]) * dx)
            top = Z[i][2] if has[i] else Z[i][0]
            rY[i][3] += 0.5 * ebank / ((top - Z[i][3]) * dx)
            rY[i][4] -= 0.5 * ebank / ((p['BackshoreElev'] - Z[i][3]) * dx)
        elif f == 2:
            i = ch['chan'][k - nr - len(ch['online'])]
            rZ[i][1] += (dep - ebed) / ((Y[i][1] - Y[i][2]) * dx)
            rY[i][1] += 0.5 * ebank / ((Z[i][0] - Z[i][1]) * dx)
            rY[i][2] -= 0.5 * ebank / ((Z[i][2] - Z[i][1]) * dx)
        elif f == 3:
            agg_end = (dep - ebed) / (s['oew'] * dx)
            w = ebank / ((p['BeachTopElev'] - s['oee']) * p['SpitWidth'])
            width_end += w
            if s['oex'][1] > s['oex'][0]:
                move += 0.5 * w * p['OutletBankEroFac']
            elif s['oex'][1] < s['oex'][0]:
                move -= 0.5 * w * p['OutletBankEroFac']
    if not closed:
        L = p['OutletSedSpreadDist']
        for i in range(n):
            share = dx * s['bed'][-1] / L * max(0.0, 1.0 - abs(X[i] - s['oex'][1]) / L)
            rY[i][0] += share / (H[i] * dx)
    for i in range(1, n - 1):
        rY[i][0] += (s['lst'][i - 1] - s['lst'][i]) / (H[i] * dx)
    if not closed:
        rb = min(i for i in range(n) if X[i] > s['oex'][1])  # first transect right of the mouth
        q = s['lst'][rb - 1]
        w = abs(q) / ((p['BeachTopElev'] - s['oee']) * p['SpitWidth'])
        width_end -= w
        if q > 0:
            rY[rb][0] -= q / (H[rb] * dx)
            move += 0.5 * w
        else:
            rY[rb - 1][0] -= -q / (H[rb - 1] * dx)
            move -= 0.5 * w
    for i in range(n):
        crest = Y[i][0] - (Y[i][1] if has[i] else Y[i][3])
        back = Z[i][0] - (Z[i][1] if has[i] else Z[i][3])
        c, o = s['cst'][i], s['ow'][i]
        rZ[i][0] += (1 - o) * c / crest
        rY[i][1 if has[i] else 3] -= o * c / back
        if 0 < i < n - 1:
            rY[i][0] -= c / H[i]
    for i in (0, n - 1):
        rY[i][0] = -p['ShorelineErosionRate'] / (365.25 * 86400)
    return riv_rate, rY, rZ, width_end, agg_end, move


def step(s, M=None):
    """One morphological step; returns new state + what happened (events)."""
    M = M or Margin()
    s = copy.deepcopy(s)
    X, Y, Z = s['X'], s['Y'], s['Z']
    n, dx, p = len(X), s['dx'], s['pars']
    closed, ch = s['closed'], s['ch']
    minw = p['MinOutletWidth']
    x0 = [i for i in range(n) if X[i] == 0][0]
    ev = set()
    tev = {}

    def at(i, what):
        ev.add(what)
        tev.setdefault(i, []).append(what)
    s['tev'] = tev
    has = [not isnan(Y[i][1]) for i in range(n)]
    H = [p['ClosureDepth'] + Z[i][0] for i in range(n)]
    back = [Z[i][0] - (Z[i][1] if has[i] else Z[i][3]) for i in range(n)]
    crest = [Y[i][0] - (Y[i][1] if has[i] else Y[i][3]) for i in range(n)]
    lag_open0 = [M.gt(Y[i][3] - Y[i][4], minw, 'lagopen0') for i in range(n)]
    wl = [s['lwl'][i] if Y[i][3] > Y[i][4] else -9999.9 for i in range(n)]
    chan = list(ch['chan'])
    if not closed:
        for i in chan:
            wl[i] = s['odep'][i] + Z[i][1]

    rr, rY, rZ, rw, ra, rm = rates(s)
    flat = [abs(v) for v in rr] + [abs(v) for r in rY for v in r if not isnan(v)] + \
           [abs(v) for r in rZ for v in r if not isnan(v)] + [abs(rw), abs(ra), abs(rm)]
    mx = max(flat)
    dt, mc = s['mordt'], s['num']['MaxMorChange']
    while M.gt(dt, s['dtmin'], 'dtmin') and M.gt(mx * dt, mc, 'dtdown'):
        dt /= 2
        ev.add('dt-halved')
    while M.le(dt * 2, s['dtmax'], 'dtmax') and M.lt(mx * dt, mc / 2, 'dtup'):
        dt *= 2
        ev.add('dt-doubled')
    lim = math.inf
    if M.gt(mx * dt, mc, 'cap'):
        lim = mc / dt
        ev.add('capped')

    def cap(v):
        return max(-lim, min(lim, v))
    for k in range(1, len(s['riv'])):
        s['riv'][k] += cap(rr[k]) * dt
    for i in range(n):
        for j in range(4):
            Z[i][j] += cap(rZ[i][j]) * dt
        for j in range(5):
            Y[i][j] += cap(rY[i][j]) * dt
    if not closed:
        s['oew'] = max(s['oew'] + cap(rw) * dt, 0.0)
        s['oee'] += cap(ra) * dt
        s['oex'][1] += cap(rm) * dt
    s['dt'] = dt
    s['gradual'] = (copy.deepcopy(Y), copy.deepcopy(Z), list(s['oex']))
    oex = s['oex']

    # 1 domain edge
    if M.lt(oex[1], X[1], 'edge'):
        oex[1] = X[1]
        ev.add('edge-left')
    if M.gt(oex[1], X[-2], 'edge'):
        oex[1] = X[-2]
        ev.add('edge-right')

    # 2 shoreline into cliff
    for i in range(n):
        if M.le(Y[i][0], Y[i][4], 'cliff'):
            ov = Y[i][4] - Y[i][0] + 0.001
            r = ov / (1 + (p['BackshoreElev'] - Z[i][0]) / H[i])
            Y[i][4] -= r
            Y[i][3] = Y[i][4]
            Y[i][0] += ov - r
            at(i, 'cliff')

    # 3 overwash filled a channel
    for i in range(n):
        if has[i] and M.lt(Y[i][1], Y[i][2], 'negw'):
            w = Y[i][2] - Y[i][1]
            vol = w * back[i]
            lev = Z[i][2] - Z[i][0]
            front = lev >= 0
            if abs(lev) < 1e-9 and lev != 0:
                M.min = 0
            lev *= crest[i] if front else -max(Y[i][2] - Y[i][3], 0.0)
            Y[i][1] += w
            if M.gt(vol, lev, 'level'):
                Z[i][0] = max(Z[i][0], Z[i][2]) + (vol - lev) / (Y[i][0] - Y[i][3])
                Y[i][1] = Y[i][2] = Z[i][1] = Z[i][2] = NAN
                has[i] = False
                at(i, 'channel-levelled')
            elif front:
                Z[i][0] += vol / crest[i]
                at(i, 'overwash-front')
            else:
                Z[i][2] += vol / (Y[i][2] - Y[i][3])
                at(i, 'overwash-back')

    # 3b overwash filled the lagoon
    for i in range(n):
        if not has[i] and M.lt(Y[i][3], Y[i][4], 'neglag'):
            Z[i][0] += (Y[i][4] - Y[i][3]) * back[i] / crest[i]
            Y[i][3] = Y[i][4]
            at(i, 'lagoon-filled')

    # 4 outlet elongates over transects
    if not closed:
        d = 1 if oex[0] < oex[1] else -1
        new = []
        i = chan[-1] + d
        while 0 <= i < n and M.le(d * X[i], d * oex[1], 'extend'):
            new.append(i)
            i += d
        for i in new:
            Y[i][1] = Y[i][0] - p['SpitWidth']
            Y[i][2] = Y[i][1] - s['oew']
            Z[i][1] = s['oee']
            Z[i][2] = Z[i][0]
            Z[i][0] = p['BeachTopElev']
            at(i, 'extend')
        if new:
            chan = channel_transects(X, oex)
        s['chan_extended'] = list(chan)

    # 5 sea reaches the upstream most outlet transect
    if not closed:
        i = chan[0]
        if M.ge(Y[i][1], Y[i][0], 'prevent-sea'):
            sh = 0.001 + Y[i][1] - Y[i][0]
            Y[i][1] -= sh
            Y[i][2] -= sh * (Z[i][0] - Z[i][1]) / (Z[i][2] - Z[i][1])
            at(i, 'prevent-seaward')
    # 6 lagoon reaches the outlet
    if len(chan) > 1:
        hit = [i for i in chan[:-1] if M.le(Y[i][2], Y[i][3], 'lagtrunc')]
        if hit:
            ev.add('lagoonward-truncation')
            t = hit[-1]                         # past all collisions
            if len(hit) > 1:
                ev.add('several-collisions')
            oex[0] = X[t + (1 if oex[0] < oex[1] else -1)]
            chan = channel_transects(X, oex)
            if not chan:
                raise ValueError('zero length outlet after truncation')
            if M.le(Y[t][2], Y[t][4], 'lagcliff'):
                wet = [i for i in range(n) if Y[i][3] > Y[i][4]]
                rng = range(wet[-1] + 1, t + 1) if X[t] > 0 else range(t, wet[0])
                for i in rng:
                    Y[i][3] = Y[i][1]
                    Z[i][3] = Z[i][1]
                    Y[i][1] = Y[i][2] = Z[i][1] = Z[i][2] = NAN
                    has[i] = False
                    at(i, 'lagoon-extended')
    # 7 sea reaches the outlet
    if len(chan) > 1:
        if any(M.ge(Y[i][1], Y[i][0], 'seatrunc') for i in chan[1:]):
            t = [i for i in chan[1:] if Y[i][1] >= Y[i][0]][0]
            oex[1] = X[t] + (-dx / 2 if oex[0] < oex[1] else dx / 2)
            chan = channel_transects(X, oex)
            ev.add('seaward-truncation')
    # 8 lagoon reaches the downstream most outlet transect
    if not closed:
        if not chan:
            raise ValueError('zero length outlet')
        i = chan[-1]
        if M.ge(Y[i][3], Y[i][2], 'prevent-lag'):
            Y[i][3] = Y[i][2] - 0.0001
            at(i, 'prevent-lagoonward')
            if M.lt(Y[i][3], Y[i][4], 'pushcliff'):
                ov = Y[i][4] - Y[i][3]
                r = ov / (1 + (p['BackshoreElev'] - Z[i][2]) / (Z[i][2] - Z[i][1]))
                Y[i][4] -= r
                Y[i][2] += ov - r
                Y[i][3] += ov - r
                at(i, 'pushed-into-cliff')
    # relic channel dissolves into lagoon
    for i in range(n):
        if M.le(Y[i][2], Y[i][3], 'merge'):
            cw, lw = Y[i][1] - Y[i][2], Y[i][3] - Y[i][4]
            Z[i][3] = (cw * Z[i][1] + lw * Z[i][3]) / (cw + lw) if cw + lw != 0 else NAN
            Y[i][3] += cw
            Y[i][1] = Y[i][2] = Z[i][1] = Z[i][2] = NAN
            has[i] = False
            at(i, 'merge-lagoon')

    # what channel is connected to the lagoon
    wide = [has[i] and M.ge(Y[i][1] - Y[i][2], minw, 'wide') for i in range(n)]
    a = b = None
    if not closed:
        a, b = min(chan), max(chan)
    elif not isnan(oex[0]):
        us = min(range(n), key=lambda i: abs(X[i] - oex[0]))
        if not wide[us] or not all(lag_open0[min(us, x0):max(us, x0) + 1]):
            oex[0] = NAN
            ev.add('relic-disconnected')
        else:
            a = b = us
    if a is not None:
        while a > 0 and wide[a - 1]:
            wl[a - 1] = wl[a]
            a -= 1
        while b < n - 1 and wide[b + 1]:
            wl[b + 1] = wl[b]
            b += 1
        if a == 0 or b == n - 1:
            s['edge_connected'] = True
    conn = [a is not None and a <= i <= b for i in range(n)]
    s['conn'] = conn

    breach, bix = False, None
    s['reused'] = False
    inter = [(not isnan(Y[i][1])) and M.le(Y[i][0], Y[i][1], 'shoreint') for i in range(n)]
    if any(inter):
        if closed and any(inter[i] and conn[i] for i in range(n)):
            breach = True
            cand = [i for i in range(n) if inter[i] and conn[i]]
            dist = [abs(X[i] - oex[0]) for i in cand]
            bix = cand[dist.index(min(dist))]
            if sum(1 for v in dist if abs(v - min(dist)) < 1e-9) > 1:
                M.min = 0
            ev.add('breach-relic-erosion')
            Y[bix][0] = Y[bix][1] + 0.001
        for i in range(n):
            if inter[i] and i != bix:
                Y[i][0] -= (Y[i][1] - Y[i][2]) * (Z[i][2] - Z[i][1]) / (Z[i][2] + p['ClosureDepth'])
                Y[i][1] = Y[i][2] = Z[i][1] = NAN
                Z[i][0] = Z[i][2]
                Z[i][2] = NAN
                has[i] = False
                at(i, 'merge-shore')

    rest = []
    ero = [i for i in range(n) if M.ge(Y[i][3], Y[i][0], 'ero') and Y[i][3] > Y[i][4]]
    if ero:
        ev.add('barrier-eroded')
        poss = []
        for i in ero:
            if i > x0:
                ok = all(lag_open0[x0 + 1:i + 1])
            elif i < x0:
                ok = all(lag_open0[i:x0])
            else:
                ok = True
            if ok:
                poss.append(i)
        was = breach
        if breach or not poss:
            pass
        elif closed:
            breach = True
        elif M.lt(min(abs(X[i]) for i in poss), abs(oex[0]), 'eronear'):
            breach = True
        rest = list(ero)
        if breach and bix is None:
            near = min(abs(X[i]) for i in poss)
            cand = [i for i in poss if abs(X[i]) == near]
            bix = cand[0]
            if len(cand) > 1:
                s['tie'] = True
            rest = [i for i in ero if i != bix]
            ev.add('breach-erosion')
        for i in rest:
            ov = 0.001 + Y[i][3] - Y[i][0]
            sh = ov / (1 + H[i] / (Z[i][0] - Z[i][3]))
            Y[i][0] += sh
            Y[i][3] -= ov - sh
            at(i, 'barrier-restored')

    for i in range(n):
        if i == bix:
            continue
        if M.lt(Y[i][3], Y[i][4], 'restcliff') if i in rest else M.le(Y[i][0], Y[i][4], 'cliff2'):
            ov = Y[i][4] - Y[i][0] + 0.001
            r = ov / (1 + (p['BackshoreElev'] - Z[i][0]) / H[i])
            Y[i][4] -= r
            Y[i][3] = Y[i][4]
            Y[i][0] += ov - r
            at(i, 'cliff-again')

    ch_h = []
    for i in range(n):
        if conn[i]:
            ch_h.append(Z[i][0])
        elif has[i]:
            ch_h.append(max(Z[i][0], Z[i][2]))
        else:
            ch_h.append(Z[i][0])
    if not breach:
        spill = [i for i in range(n) if M.lt(ch_h[i], wl[i], 'spill')]
        poss = []
        lag_open = [M.gt(Y[i][3] - Y[i][4], minw, 'lagopen') for i in range(n)]
        for i in spill:
            ev.add('spill')
            if conn[i]:
                ok = True
            elif i > x0:
                ok = all(lag_open[x0 + 1:i + 1])
            elif i < x0:
                ok = all(lag_open[i:x0])
            else:
                ok = True
            if ok:
                poss.append(i)
        if not closed:
            keep = []
            for i in poss:
                if conn[i]:
                    ok = M.lt(abs(X[i] - oex[0]), abs(oex[1] - oex[0]), 'spillnear')
                else:
                    ok = M.lt(abs(X[i]), min(abs(oex[0]), abs(oex[1])), 'spillnear')
                if ok:
                    keep.append(i)
            poss = keep
        if poss:
            depth = [wl[i] - ch_h[i] for i in poss]
            m = max(depth)
            if sum(1 for v in depth if abs(v - m) < 1e-9) > 1:
                s['tie'] = True
            bix = poss[depth.index(m)]
            breach = True
            ev.add('breach-spill-closed' if closed else 'breach-spill-open')
            if conn[bix]:
                ev.add('breach-connected')
        elif spill:
            ev.add('spill-no-breach')
    if breach:
        i = bix
        tev.setdefault(i, []).append('breach')
        s['oew'] = max(s['oew'], 2 * minw)
        s['reused'] = conn[i] and has[i]
        if s['reused']:
            ev.add('breach-into-channel')
            oex[1] = X[i]
    if breach and not s['reused']:
        oex[0] = oex[1] = X[i]
        Z[i][2] = Z[i][0]
        Y[i][1] = min(Y[i][0] - p['SpitWidth'], (Y[i][0] + Y[i][3]) / 2 + s['oew'] / 2)
        Y[i][2] = Y[i][1] - s['oew']
        s['oee'] = min(s['oee'], p['MaxOutletElev'])
        Z[i][1] = 0.5 * s['oee'] + 0.5 * Z[i][3]
        if M.ge(Y[i][3], Y[i][2], 'fit'):
            Y[i][3] = Y[i][2] - 0.001
            at(i, 'breach-fit-lagoon')
        if M.ge(Y[i][4], Y[i][2], 'fit'):
            Y[i][4] = Y[i][2] - 0.001
            at(i, 'breach-fit-cliff')
    s['bix'] = bix
    if M.lt(Y[x0][3] - Y[x0][4], minw, 'x0'):
        Y[x0][4] = Y[x0][3] - minw - 0.001
        at(x0, 'river-mouth-kept')
    s['breach'] = breach
    s['events'] = ev
    s['has'] = has
    return s
