"""Independent scalar reference models of the river/lagoon/outlet channel (harness oracle)."""
import math
import numpy as np

NAN = float('nan')


class Margin:
    """Remembers how close any decision was to a tie (ties make the oracle ambiguous)."""

    def __init__(self):
        self.min = math.inf
        self.where = None

    def _see(self, a, b, tag):
        if math.isnan(a) or math.isnan(b) or a == b or math.isinf(a) or math.isinf(b):
            return
        m = abs(a - b) / max(1.0, abs(a), abs(b))
        if m < self.min:
            self.min = m
            self.where = tag

    def lt(self, a, b, tag=''):
        a, b = float(a), float(b)
        self._see(a, b, tag)
        return a < b

    def le(self, a, b, tag=''):
        a, b = float(a), float(b)
        self._see(a, b, tag)
        return a <= b

    def gt(self, a, b, tag=''):
        return self.lt(b, a, tag)

    def ge(self, a, b, tag=''):
        return self.le(b, a, tag)


def channel_transects(X, oex):
    """Transects crossed by the outlet channel, ordered from its upstream end."""
    n = len(X)
    if oex[0] < oex[1]:
        return [i for i in range(n) if oex[0] <= X[i] <= oex[1]]
    return [i for i in range(n - 1, -1, -1) if oex[1] <= X[i] <= oex[0]]


def assemble(s, M=None):
    """Merge river, lagoon and outlet into one channel.

    s: dict with X, Y, Z, oex, oew, oee, closed, riv, hydraulics and pars.
    Returns dict, or raises ValueError when no valid channel exists.
    """
    M = M or Margin()
    X, Y, Z = s['X'], s['Y'], s['Z']
    n = len(X)
    dx = s['dx']
    minw = s['pars']['MinOutletWidth']
    x0 = [i for i in range(n) if X[i] == 0][0]
    closed = bool(s['closed'])
    chan = []
    cause = set()
    if closed:
        cause.add('already')
    else:
        chan = channel_transects(X, s['oex'])
        for i in chan:
            w = Y[i][1] - Y[i][2]
            if math.isnan(w):
                w = 0.0
            if M.le(w, minw, 'chanw'):
                closed = True
                cause.add('channel')
        if M.le(s['oew'], minw, 'endw'):
            closed = True
            cause.add('end')
        if closed:
            chan = []
    lagw = [Y[i][3] - Y[i][4] for i in range(n)]
    e0 = s['oex'][0]
    # which way does the lagoon run from the river?
    if e0 == 0 or e0 > 0:
        step = 1
    else:
        step = -1
    start = [i for i in range(n) if (i - x0) * step < 0]   # behind the river
    if closed:
        wet = [i for i in range(n) if lagw[i] > 0]
        last = wet[-1] if step == 1 else wet[0]
        online = list(range(x0, last + step, step)) if (last - x0) * step >= 0 else []
        beyond = []
    elif e0 == 0:
        online = [x0]
        beyond = [i for i in range(n) if X[i] > 0]
    elif step == 1:
        online = [i for i in range(x0, n) if X[i] < e0]
        beyond = [i for i in range(n) if X[i] > e0]
    else:
        online = [i for i in range(x0, -1, -1) if X[i] > e0]
        beyond = [i for i in range(n) if X[i] < e0]
    if not online:
        raise ValueError('no online lagoon')
    end_area = sum(lagw[i] * dx for i in beyond)
    end_len = sum(dx for i in beyond if lagw[i] > 0)
    start_area = sum(lagw[i] * dx for i in start)
    start_len = sum(dx for i in start if lagw[i] > 0)
    for k, i in enumerate(online):
        if M.lt(lagw[i], minw, 'lagw'):
            if k == 0:
                raise ValueError('lagoon closed at the river')
            if not closed:
                closed = True
                chan = []
                cause.add('lagoon')
            else:
                cause.add('lagoon-short')
            for j in online[k:]:
                end_area += lagw[j] * dx
                if lagw[j] > 0:
                    end_len += dx
            online = online[:k]
            break
    nr = len(s['riv'])
    nl = len(online)
    flag = [0] * nr + [1] * nl
    elev = list(s['riv']) + [Z[i][3] for i in online]
    width = [s['pars']['RiverWidth']] * nr + [lagw[i] for i in online]
    dep = list(s['rdep']) + [s['lwl'][i] - Z[i][3] for i in online]
    vel = list(s['rvel']) + [s['lvel'][i] for i in online]
    if closed:
        vel[-1] = 0.0
        d = [dx] * (nr + nl - 1)
    else:
        flag += [2] * len(chan) + [3, 4]
        elev += [Z[i][1] for i in chan] + [s['oee'], min(s['pars']['MaxOutletElev'], s['oee'])]
        width += [Y[i][1] - Y[i][2] for i in chan] + [s['oew']] * 2
        dep += [s['odep'][i] for i in chan] + list(s['oedep'])
        vel += [s['ovel'][i] for i in chan] + list(s['oevel'])
        d = [dx] * (nr + nl + len(chan) + 1)
        e1 = s['oex'][1]
        d[-2] = dx + abs(e1 - X[chan[-1]]) if chan else dx
    area = [0.0] * len(elev)
    area[nr] += start_area
    area[nr + nl - 1] += end_area
    length = [dx if f == 1 else 0.0 for f in flag]
    length[nr] += start_len
    length[nr + nl - 1] += end_len
    # fill in hydraulics where there is no previous value (new cross-sections)
    known = [k for k in range(len(dep)) if not math.isnan(dep[k])]
    dep = [float(v) for v in np.interp(range(len(dep)), known, [dep[k] for k in known])] if known else dep
    kv = [k for k in range(len(vel)) if not math.isnan(vel[k])]
    if kv:
        q = np.interp(range(len(vel)), kv, [dep[k] * vel[k] for k in kv])
        vel = [vel[k] if not math.isnan(vel[k]) else float(q[k] / dep[k]) for k in range(len(vel))]
    return {'dx': d, 'elev': elev, 'width': width, 'area': area, 'len': length, 'dep': dep, 'vel': vel,
            'online': online, 'chan': chan, 'flag': flag, 'closed': closed, 'cause': cause}
