"""V01 figures show the model state."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import gen
import rivlib

ID = 'V01'
RULE = ('plan view, long-section, cross-section, boundary and map figures of random coasts (outlet left/right/in line, angled either way, open or '
        'closed), created and then updated with 0..2 further states; non-trivial = an open outlet or at least one update')
N = {'quick': 240, 'thorough': 6000}
ASSUMPTIONS = ['the channel bank lines are judged at the transects they cross and at both ends; the joining points near the ends are drawing conventions',
               'figures are updated with states on the transects they were created with',
               'the map view is for coasts with their cliff landward of the baseline, as loaded models have']


def strategy(tier):
    @st.composite
    def s(draw):
        g = gen.geometry(draw, thin=0.0, gaps=False)
        gen.hydraulics(draw, g)
        g['kind'] = draw(pick('plan', 'plan', 'plan', 'plan', 'long', 'section', 'section', 'bdy', 'map', 'map'))
        n = len(g['X'])
        nu = draw(st.integers(0, 2))
        g['upd'] = [{'dy': draw(sfl(40.0)), 'f': draw(pick(1.0, 1.3, 0.8)), 'close': draw(st.integers(0, 2)) == 0, 'dz': draw(sfl(0.5)),
                     'w': draw(fl(2.0, 60.0)), 'hf': draw(fl(0.3, 2.0))} for _ in range(nu)]
        g['wave'] = [[draw(pick(0.0, 100.0, 3e4)), draw(sfl(3.14159)), draw(sfls(0.1, 2 * n)), draw(sfl(3.0))] for _ in range(nu + 1)]
        g['parts'] = draw(ints(4, 1))
        g['at'] = draw(fl(0.0, 1.0))
        g['aoi'] = draw(st.booleans())
        g['time'] = draw(st.integers(0, 500000))
        g['title'] = draw(st.booleans())
        g['bed'] = draw(fls(0.0, 0.05, 40))
        g['qs'] = draw(fls(0.0, 500.0, 12))
        g['map'] = [draw(sfl(2e6)), draw(sfl(6e6)), draw(sfl(6.28))]
        g['back'], g['beach'], g['clo'] = draw(fl(3.0, 20.0)), draw(fl(0.03, 0.3)), draw(fl(1.0, 10.0))
        return g
    return s()


def states(c):
    s = gen.clean(c)
    out = [s]
    for u in c['upd']:
        t = copy.deepcopy(out[0])
        Y, Z = np.array(t['Y'], float), np.array(t['Z'], float)
        Y = Y[:, :1] + (Y - Y[:, :1]) * u['f'] + u['dy']
        t['Y'], t['Z'] = Y.tolist(), (Z + u['dz']).tolist()
        t['oew'] = u['w']
        for k in ('odep', 'oedep', 'rdep'):
            t[k] = (np.array(t[k], float) * u['hf']).tolist()
        if u['close']:
            t['closed'] = True
        out.append(t)
    res = []
    for t in out:
        r = rivlib.reference(t)
        n = len(t['X'])
        d = {'X': np.array(t['X'], float), 'Y': np.array(t['Y'], float), 'Z': np.array(t['Z'], float), 'oex': np.array(t['oex'], float),
             'oew': float(t['oew']), 'closed': bool(r['closed']), 'chan': np.array(r['chan'], int) if not r['closed'] else np.zeros(0, int),
             'cdx': np.array(r['dx'], float), 'elev': np.array(r['elev'], float), 'width': np.array(r['width'], float),
             'dep': np.array(r['dep'], float), 'vel': np.array(r['vel'], float), 'lwl': np.array(t['lwl'], float),
             'owl': np.array(t['odep'], float) + np.array(t['Z'], float)[:, 1], 'pars': t['pars'], 'dx': t['dx']}
        assert d['X'].size == n
        res.append(d)
    return res


def held(d):
    return {k: (v.copy() if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in d.items()}


def unchanged(d, k, what):
    for n, v in k.items():
        need(np.array_equal(d[n], v, equal_nan=True) if isinstance(v, np.ndarray) else d[n] == v, '%s changed the model state (%s)', what, n)


def xy(line):
    return np.column_stack([np.asarray(line.get_xdata(orig=False), float).ravel(), np.asarray(line.get_ydata(orig=False), float).ravel()])


def parts(p):
    """Split a polyline at its gaps."""
    out, cur = [], []
    for q in p:
        if np.any(np.isnan(q)):
            if cur:
                out.append(np.array(cur))
            cur = []
        else:
            cur.append(q)
    if cur:
        out.append(np.array(cur))
    return out


def dedupe(p):
    p = np.asarray(p, float)
    keep = [i for i in range(len(p)) if i == 0 or not np.allclose(p[i], p[i - 1], 1e-9, 1e-9)]
    return p[keep]


def polyline(got, want, what):
    g, w = [dedupe(q) for q in parts(got)], [dedupe(q) for q in parts(want)]
    need(len(g) == len(w), '%s drawn in %d pieces, expected %d', what, len(g), len(w))
    for a, b in zip(g, w):
        need(a.shape == b.shape, '%s has %d points, expected %d: %s; %s', what, len(a), len(b), a[:6].tolist(), b[:6].tolist())
        close(a, b, what, 1e-9, 1e-7)


def within(pts, poly, what):
    poly = np.asarray(poly, float)
    for p in np.asarray(pts, float):
        if np.any(np.isnan(p)):
            continue
        need(np.any(np.all(np.abs(poly - p) <= 1e-6, axis=1)), '%s does not pass through %s', what, p.tolist())


GAP = np.array([[np.nan, np.nan]])


def plan(f, d, w, c, what):
    X, Y, P = d['X'], d['Y'], d['pars']
    hw = P['RiverWidth'] / 2
    cy = lambda x: np.interp(x, X, Y[:, 4])
    left, right = X <= -hw, X >= hw
    cl_, cr = np.column_stack([X[left], Y[left, 4]]), np.column_stack([X[right], Y[right, 4]])
    el, er = np.array([[-hw, cy(-hw)]]), np.array([[hw, cy(hw)]])
    cliff = np.vstack([cl_, el, GAP, er, cr])
    polyline(xy(f['CliffLine']), cliff, what + ': cliff')
    riv = parts(xy(f['RiverLine']))
    need(len(riv) == 2, '%s: river drawn with %d banks', what, len(riv))
    for q, x in zip(sorted(riv, key=lambda a: a[0, 0]), (-hw, hw)):
        need(np.allclose(q[:, 0], x) and abs(q[:, 1].max() - cy(x)) < 1e-6 and q[:, 1].min() < Y[:, 4].min() - 100,
             '%s: river bank at x=%g drawn as %s', what, x, q.tolist())
    ch = parts(xy(f['ChannelLine']))
    has = ~np.isnan(Y[:, 1])
    want = np.vstack([np.column_stack([X[has], Y[has, k]]) for k in (1, 2)]) if has.any() else np.zeros((0, 2))
    got = np.vstack(ch) if ch else np.zeros((0, 2))
    need(len(got) == len(want), '%s: channel drawn at %d bank points, expected %d', what, len(got), len(want))
    within(want, got if len(got) else np.full((1, 2), np.nan), what + ': channel')
    sy = lambda x: np.interp(x, X, Y[:, 0])
    ly = lambda x: np.interp(x, X, Y[:, 3])
    shore = np.column_stack([X, Y[:, 0]])
    lagoon = np.column_stack([X, Y[:, 3]])
    out = xy(f['OutletLine'])
    if d['closed']:
        polyline(xy(f['ShoreLine']), shore, what + ': shoreline')
        polyline(xy(f['LagoonLine']), lagoon, what + ': lagoon')
        need(not len(parts(out)), '%s: an outlet is drawn though closed', what)
        need(not len(parts(xy(f['ShoreDots']))), '%s: a bar across the outlet is drawn though closed', what)
    else:
        ix, e, we = d['chan'], d['oex'], d['oew']
        lp = X[Y[:, 3] > Y[:, 4]]
        wu = Y[ix[0], 1] - Y[ix[0], 2]
        ul, ur = max(e[0] - wu / 2, lp.min() - d['dx']), min(e[0] + wu / 2, lp.max() + d['dx'])
        dl, dr = e[1] - we / 2, e[1] + we / 2
        if min(abs(np.subtract.outer(X, [dl, dr, ul, ur])).ravel()) < 1e-6 or min(abs(ul - dl), abs(ur - dr)) < 1e-6:
            raise Discard()
        polyline(xy(f['ShoreLine']), np.vstack([shore[X <= dl], [[dl, sy(dl)]], GAP, [[dr, sy(dr)]], shore[X >= dr]]), what + ': shoreline')
        polyline(xy(f['LagoonLine']), np.vstack([lagoon[X <= ul], [[ul, ly(ul)]], GAP, [[ur, ly(ur)]], lagoon[X >= ur]]), what + ': lagoon')
        dots = parts(xy(f['ShoreDots']))
        inside = shore[(X > dl) & (X < dr)]
        need(len(inside) == (len(dots[0]) if dots else 0), '%s: bar across the outlet', what)
        if dots:
            close(dots[0], inside, what + ': bar across the outlet', 1e-9, 1e-7)
        banks = parts(out)
        need(len(banks) == 2, '%s: outlet drawn with %d banks', what, len(banks))
        lb, rb = banks
        for q, u, v, nm in ((lb, ul, dl, 'left'), (rb, ur, dr, 'right')):
            close(q[0], [u, ly(u)], '%s: lagoon end of the %s bank' % (what, nm), 1e-9, 1e-7)
            close(q[-1], [v, sy(v)], '%s: sea end of the %s bank' % (what, nm), 1e-9, 1e-7)
        i = ix
        if ul < dl:
            within(np.column_stack([X[i], Y[i, 1]])[X[i] < dl], lb, what + ': left bank')
        else:
            within(np.column_stack([X[i], Y[i, 2]])[X[i] < ul], lb, what + ': left bank')
        if ur < dr:
            within(np.column_stack([X[i], Y[i, 2]])[X[i] > ur], rb, what + ': right bank')
        else:
            within(np.column_stack([X[i], Y[i, 1]])[X[i] > dr], rb, what + ': right bank')
    water = f['WaterFill'].get_xy()
    for k in ('ShoreLine', 'LagoonLine', 'CliffLine', 'OutletLine'):
        within(xy(f[k]), water, '%s: edge of the water along the %s' % (what, k))
    within(xy(f['CliffLine']), f['CliffFill'].get_xy(), what + ': edge of the land')
    part = c['parts']
    if part[0]:
        polyline(xy(f['CrestLine']), np.column_stack([X, d['Z'][:, 0]]), what + ': barrier crest')
    if part[1]:
        v = np.asarray(f['WaveArrow'].get_xy(), float) - [0, 200]
        m = v.mean(axis=0)
        pw, dr_ = w[0], w[1]
        if abs(abs(dr_) - math.pi / 2) < 1e-6:
            pass
        elif abs(dr_) > math.pi / 2 or pw == 0:
            need(np.abs(v).max() < 1.0, '%s: wave arrow for offshore directed or no waves', what)
        else:
            u = np.array([-math.sin(dr_), -math.cos(dr_)])
            need(m @ u > 0 and abs(m[0] * u[1] - m[1] * u[0]) < 1e-3 * abs(m @ u), '%s: wave arrow points %s, expected %s', what, m.tolist(), u.tolist())
    q = f.get('LstQuiver')
    if part[2]:
        close(np.asarray(q.U, float), w[2], what + ': longshore transport arrows')
        close(np.asarray(q.V, float), 0 * w[2], what + ': longshore transport arrows')
        close(np.asarray(q.get_offsets(), float), np.column_stack([(X[1:] + X[:-1]) / 2, (Y[1:, 0] + Y[:-1, 0]) / 2]), what + ': positions of longshore transport')
    q = f.get('CstQuiver')
    if part[3]:
        close(np.asarray(q.V, float), -w[3], what + ': cross-shore transport arrows')
        close(np.asarray(q.U, float), 0 * w[3], what + ': cross-shore transport arrows')
        close(np.asarray(q.get_offsets(), float), shore, what + ': positions of cross-shore transport')


def longsec(f, d, bed, what):
    x = np.concatenate([[0], np.cumsum(d['cdx'])])
    m = (x[1:] + x[:-1]) / 2
    mid = lambda a: (a[1:] + a[:-1]) / 2
    wl = d['elev'] + d['dep']
    for k, a, b in (('BedLine', x, d['elev']), ('WaterLine', x, wl), ('EnergyLine', m, mid(wl) + mid(d['vel']) ** 2 / 19.62), ('WidthLine', x, d['width']),
                    ('FlowLine', x, d['width'] * d['dep'] * d['vel']), ('VelLine', x, d['vel']), ('FrLine', x, np.abs(d['vel']) / np.sqrt(9.81 * d['dep'])),
                    ('QsLine', m, bed * 3600 if bed is not None else None)):
        if b is None:
            need(f[k] is None, '%s: %s drawn without data', what, k)
            continue
        close(xy(f[k]), np.column_stack([a, b]), '%s: %s' % (what, k), 1e-9, 1e-9)
    q = d['width'] * d['dep'] * d['vel']
    lo, hi = sorted(f['FlowAx'].get_ylim())
    e = 1e-6 * (1 + np.nanmax(np.abs(q)))
    need(lo <= np.nanmin(q) + e and hi >= np.nanmax(q) - e, '%s: flow axis %s does not show the flow', what, (lo, hi))


def section(f, d, k, c, sea, what):
    y, z = d['Y'][k], d['Z'][k]
    top, clo = d['pars']['BeachTopElev'], c['clo']
    g = [(y[0] + (top + clo) / c['beach'], -clo), (y[0], top), (y[0], z[0])]
    w = [(y[0], sea)]
    if np.isnan(y[2]):
        g += [(y[3], z[0])]
    else:
        g += [(y[1], z[0]), (y[1], z[1]), (y[2], z[1]), (y[2], z[2]), (y[3], z[2])]
        w += [(y[1], d['owl'][k]), (y[2], d['owl'][k])]
    if y[3] != y[4]:
        g += [(y[3], z[3]), (y[4], z[3])]
        w += [(y[3], d['lwl'][k]), (y[4], d['lwl'][k])]
    g += [(y[4], c['back'])]
    for nm, want, line, fill in (('ground', g, 'GroundLine', 'GroundFill'), ('water', w, 'WaterLine', 'WaterFill')):
        got = xy(f[line])
        want = np.array(want)
        inner = dedupe(got[1:-1] if nm == 'ground' else got[1:])
        ww = dedupe(want)
        ok = ~np.any(np.isnan(inner), axis=1)
        wk = ~np.any(np.isnan(ww), axis=1)
        need(inner[ok].shape == ww[wk].shape, '%s: %s line %s, expected %s', what, nm, inner.tolist(), ww.tolist())
        close(inner[ok], ww[wk], '%s: %s line' % (what, nm), 1e-9, 1e-7)
        need(got[0, 0] > y[0] and abs(got[0, 1] - (sea if nm == 'water' else -clo)) < 1e-9, '%s: sea end of the %s line %s', what, nm, got[0].tolist())
        if nm == 'ground':
            need(got[-1, 0] < y[4] and abs(got[-1, 1] - c['back']) < 1e-9, '%s: landward end of the ground line %s', what, got[-1].tolist())
        within(got, f[fill].get_xy(), '%s: %s area' % (what, nm))


def check(c):
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    import pandas as pd
    from hapuamod import visualise as vis
    S = states(c)
    t0 = pd.Timestamp('2003-05-01') + pd.Timedelta(minutes=c['time'])
    kind, X = c['kind'], S[0]['X']
    n = X.size
    waves = [(w[0], w[1], np.array(w[2][:n - 1]), np.array(w[2][n - 1:2 * n - 1]), w[3]) for w in c['wave']]
    aoi = (X[1], X[-2], -200.0, 100.0) if c['aoi'] else None
    try:
        f = None
        for i, (d, w) in enumerate(zip(S, waves)):
            what = ('new ' if i == 0 else 'updated ') + kind
            when = t0 + pd.Timedelta(hours=i) if c['title'] else None
            k = held(d)
            kw = {}
            if kind == 'plan':
                P = c['parts']
                kw = dict(ShoreZ=d['Z'] if P[0] else None, WavePower=w[0] if P[1] else None, EDir_h=w[1], LST=w[2] if P[2] else None,
                          CST=w[3] if P[3] else None, PlotTime=when, Closed=d['closed'])
                lst, cst = w[2].copy(), w[3].copy()
                with sut(what):
                    if i == 0:
                        f = vis.modelView(X, d['Y'], d['oex'], d['oew'], d['chan'], d['pars']['RiverWidth'], d['pars']['SpitWidth'], AreaOfInterest=aoi, **kw)
                    else:
                        vis.updateModelView(f, X, d['Y'], d['oex'], d['oew'], d['chan'], **kw)
                need(np.array_equal(lst, w[2]) and np.array_equal(cst, w[3]), '%s changed the transport', what)
                plan(f, d, w, c, what)
                ax = f['PlanAx']
                if when is not None:
                    need(when.strftime('%H:%M') in ax.get_title(loc='right') and when.strftime('%d') in ax.get_title(loc='right'),
                         '%s shows time "%s", expected %s', what, ax.get_title(loc='right'), when)
            elif kind == 'long':
                m = d['cdx'].size
                bed = np.resize(np.array(c['bed']) * (i + 1), m) if c['parts'][0] else None
                keep = None if bed is None else bed.copy()
                with sut(what):
                    if i == 0:
                        f = vis.longSection(d['cdx'], d['elev'], d['width'], d['dep'], d['vel'], bed, PlotTime=when, AreaOfInterest=aoi)
                    else:
                        vis.updateLongSection(f, d['cdx'], d['elev'], d['width'], d['dep'], d['vel'], bed, PlotTime=when)
                need(bed is None or np.array_equal(bed, keep), '%s changed the bedload', what)
                longsec(f, d, bed, what)
                if when is not None:
                    need(when.strftime('%H:%M') in f['RivFig']._suptitle.get_text(), '%s shows another time', what)
            elif kind == 'section':
                at = X[0] + c['at'] * (X[-1] - X[0])
                near = np.argsort(np.abs(X - at), kind='stable')
                if abs(abs(X[near[0]] - at) - abs(X[near[1]] - at)) < 1e-9:
                    raise Discard()
                with sut(what):
                    if i == 0:
                        f = vis.newTransectFig(X, d['Y'], d['Z'], d['lwl'], d['owl'], w[4], c['beach'], c['back'], c['clo'], d['pars']['BeachTopElev'], at,
                                               PlotTime=when, AreaOfInterest=aoi)
                    else:
                        vis.updateTransectFig(f, d['Y'], d['Z'], d['lwl'], d['owl'], w[4], PlotTime=when)
                section(f, d, near[0], c, w[4], what)
                tt = f['TransAx'].get_title(loc='left')
                need(('%.0f' % abs(X[near[0]])) in tt or 'line' in tt, '%s is labelled "%s"', what, tt)
                if when is not None:
                    need(when.strftime('%H:%M') in f['TransAx'].get_title(loc='right'), '%s shows another time', what)
            elif kind == 'bdy':
                m = 1 + i * 2
                ts = pd.DataFrame({'Qin': c['qs'][:m], 'Qout': c['qs'][3:3 + m], 'SeaLevel': np.array(c['qs'][6:6 + m]) / 200},
                                  index=[t0 + pd.Timedelta(minutes=7 * j) for j in range(m)])
                keep = ts.copy()
                with sut(what):
                    if i == 0:
                        f = vis.bdyCndFig(ts)
                    else:
                        vis.updateBdyCndFig(f, ts)
                need(keep.equals(ts), '%s changed the series', what)
                for ln, col in zip(f[3:6], ('Qin', 'Qout', 'SeaLevel')):
                    close(np.asarray(ln.get_ydata(), float), ts[col].values, '%s: %s' % (what, col))
                    got = [pd.Timestamp(v) for v in np.asarray(ln.get_xdata(orig=True), 'datetime64[ns]')]
                    need(got == list(ts.index), '%s: times of %s are %s, expected %s', what, col, got, list(ts.index))
                if i:
                    q = ts[['Qin', 'Qout']].values
                    lo, hi = f[1].get_ylim()
                    need(lo <= q.min() + 1e-6 and hi >= q.max() - 1e-6, '%s: flow axis %s does not show %s..%s', what, (lo, hi), q.min(), q.max())
            elif kind == 'map':
                plt.figure()
                ox, oy, b = c['map']
                with sut(what):
                    vis.mapView(X, d['Y'], np.array([ox, oy]), b)
                lines = {ln.get_label(): ln for ln in plt.gca().get_lines()}

                def real(x, y):
                    return np.column_stack([ox + x * math.sin(b + math.pi / 2) + y * math.sin(b), oy + x * math.cos(b + math.pi / 2) + y * math.cos(b)])
                for nm, col in (('Shore', 0), ('Lagoon', 3), ('Cliff', 4)):
                    need(nm in lines, '%s: no line "%s"', what, nm)
                    close(xy(lines[nm]), real(X, d['Y'][:, col]), '%s: %s' % (what, nm), 1e-9, 1e-6)
                cy = float(np.interp(0, X, d['Y'][:, 4]))
                r = xy(lines['River'])
                need(np.min(np.hypot(*(r - real(np.zeros(1), np.array([cy]))).T)) < 1e-5, '%s: river does not end at the cliff', what)
                o = xy(lines['Origin'])
                close(o, [[ox, oy]], what + ': origin', 1e-12, 1e-6)
                # the other lines: landward bank of the channel and the ends of the lagoon
                rest = [xy(ln) for ln in plt.gca().get_lines() if ln.get_label().startswith('_')]
                fits = lambda p: any(q.shape == p.shape and np.allclose(q, p, 1e-9, 1e-6, equal_nan=True) for q in rest)
                need(np.isnan(d['Y'][:, 2]).all() or fits(real(X, d['Y'][:, 2])), '%s: landward bank of the channel not drawn', what)
                for i_ in np.flatnonzero(~np.isnan(d['Y'][:, 3]))[[0, -1]]:
                    e = real(np.full(2, X[i_]), d['Y'][i_, 3:5])
                    need(fits(e) or fits(e[::-1]), '%s: end of the lagoon at %g not drawn', what, X[i_])
                unit = real(np.array([1.0, 0.0]), np.array([0.0, 1.0])) - [ox, oy]
                along = lambda p: (np.asarray(p, float) - [ox, oy]) @ unit.T
                rv = along(r)
                need(np.all(np.abs(rv[:, 0]) < 1e-5) and (rv[:, 1].min() < cy or d['Y'][:, 4].min() >= 0), '%s: river drawn along %s', what, rv.tolist())
                tips = [max(along(pt.get_xy()), key=lambda u: u @ u) for pt in plt.gca().patches
                        if hasattr(pt, 'get_xy') and np.ndim(pt.get_xy()) == 2]
                if len(tips) == 2:
                    for q, nm in ((0, 'X'), (1, 'Y')):
                        need(any(u[q] > 0 and abs(u[1 - q]) < 1e-3 * u[q] + 1e-5 for u in tips), '%s: no arrow along the %s axis: %s', what, nm, [u.tolist() for u in tips])
                for tx in plt.gca().texts:
                    if tx.get_text() in ('X', 'Y'):
                        u = along(tx.get_position() if not hasattr(tx, 'xy') else tx.xy)
                        a_, b_ = (u[0], u[1]) if tx.get_text() == 'X' else (u[1], u[0])
                        need(a_ > 0 and abs(b_) < 1e-3 * a_ + 1e-5, '%s: label of the %s axis at model position %s', what, tx.get_text(), u.tolist())
            unchanged(d, k, what)
    finally:
        plt.close('all')
    side = 'closed' if S[0]['closed'] else 'right' if S[0]['oex'][1] > S[0]['oex'][0] else 'left' if S[0]['oex'][1] < S[0]['oex'][0] else 'straight'
    return {'nontrivial': not S[0]['closed'] or len(S) > 1, 'classes': [kind, kind + '-' + side] if kind == 'plan' else [kind]}
