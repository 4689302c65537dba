"""M03 validity of the geometry through histories of coupled steps."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import gen
import morlib
import ref_riv
import rivlib

ID = 'M03'
RULE = ('histories of up to 12 (quick) / 40 (thorough) assembly + morphology steps from random coasts under generated bedload, '
        'waves (longshore transport, overtopping by the model itself), depths and water levels; non-trivial = at least two '
        'different rearrangements happened along the history')
N = {'quick': 900, 'thorough': 16000}


def strategy(tier):
    kmax = 12 if tier == 'quick' else 40

    @st.composite
    def s(draw):
        g = gen.geometry(draw, thin=draw(pick(0.0, 0.1, 0.3)), relics=draw(st.booleans()), gaps=draw(st.booleans()),
                         nmax=draw(pick(5, 7, 9)))
        gen.hydraulics(draw, g)
        g['num'] = {'MaxMorChange': draw(pick(0.5, 0.1, 2.0, 5.0))}
        g['dtmin'], g['dtmax'], g['mordt'] = gen.times(draw)
        n = len(g['X'])
        nodes = 2 * n + len(g['riv']) + 4
        steps = []
        storm = draw(pick(0, 1, 2))
        for _ in range(draw(st.integers(1, kmax))):
            t = {}
            sc = draw(pick(0.3, 0.01, 3.0, 0.0))
            b = draw(sfls(sc, nodes, 199)) if sc else [0.0] * nodes
            t['bed'] = [abs(v) for v in b] if draw(st.booleans()) else b
            t['wave'] = {'P': draw(pick(1e3, 1e4, 1e5, 0.0)), 'T': draw(fl(5.0, 14.0)), 'L': draw(fl(20.0, 130.0)),
                         'dir': draw(sfl(1.4))}
            t['run'] = draw(fl(0.0, 6.0 if storm else 2.0))
            t['sea'] = draw(sfl(1.5))
            t['lwl'] = draw(fl(-1.0, 5.0 if storm == 2 else 2.0))
            t['dep'] = draw(fl(0.1, 3.0))
            t['hold'] = draw(pick(1, 1, 2, 5))
            steps.append(t)
        g['steps'] = steps
        g['pars']['OT_coef'] = draw(pick(0.00015, 0.01, 0.1))
        return g
    return s()


def valid(s, i0, when, squeezed=()):
    Y, Z, n = np.array(s['Y'], float), np.array(s['Z'], float), len(s['X'])
    minw = s['pars']['MinOutletWidth']
    finite(Y[:, [0, 3, 4]], 'plan geometry (shoreline, lagoon edge, cliff)' + when)
    finite(Z[:, [0, 3]], 'barrier crest / lagoon bed' + when)
    has = ~np.isnan(Y[:, 1])
    for k, m in ((Y[:, 2], 'banks'), (Z[:, 1], 'channel bed'), (Z[:, 2], 'inner barrier crest')):
        need(np.array_equal(~np.isnan(k), has), 'channel %s present without the other parts of the channel%s', m, when)
    for i in range(n):
        y = Y[i]
        if has[i]:
            need(y[0] > y[1], 'barrier seaward of the channel has width %.9g at transect %d%s', y[0] - y[1], i, when)
            need(y[1] >= y[2] or i in squeezed, 'channel has width %.9g at transect %d%s', y[1] - y[2], i, when)
            need(y[2] > y[3], 'inner barrier has width %.9g at transect %d%s', y[2] - y[3], i, when)
        need(y[0] > y[3], 'barrier has width %.9g at transect %d%s', y[0] - y[3], i, when)
        need(y[3] >= y[4] - 1e-9, 'lagoon has width %.9g at transect %d%s', y[3] - y[4], i, when)
    need(Y[i0, 3] - Y[i0, 4] >= minw * (1 - 1e-9), 'lagoon at the river narrowed to %.9g m%s', Y[i0, 3] - Y[i0, 4], when)
    oex = s['oex']
    need(s['X'][1] <= oex[1] <= s['X'][-2], 'outlet end at %.9g outside the domain%s', oex[1], when)


def check(c):
    from hapuamod import coast
    import pandas as pd
    s = gen.clean(c)
    n = len(s['X'])
    events, cl = set(), set()
    done = 0
    try:
        for t in s['steps']:
            for _ in range(t['hold']):
                when = ' after step %d' % (done + 1)
                g = rivlib.call(s, 'assembling the channel' + when)
                r = rivlib.reference(s)
                rivlib.compare(g, r)
                if r['closed'] and not s['closed']:
                    cl.add('closure')
                s['closed'] = r['closed']
                s['ch'] = r
                nodes = len(r['flag'])
                s['bed'] = t['bed'][:nodes - 1]
                w = t['wave']
                Y, Z, p = np.array(s['Y'], float), np.array(s['Z'], float), copy.deepcopy(s['pars'])
                with sut('transport' + when):
                    lst = coast.longShoreTransport(Y, s['dx'], w['P'], w['T'], w['L'], w['dir'], p)
                    cst, ow = coast.overtopping(t['run'], t['sea'], Y, Z, p)
                finite(lst, 'longshore transport' + when)
                finite(cst, 'overtopping transport' + when)
                s['lst'], s['cst'], s['ow'] = [float(v) for v in lst], [float(v) for v in cst], [float(v) for v in ow]
                s['lwl'] = [max(t['lwl'], s['Z'][i][3] + 0.05) for i in range(n)]
                s['odep'] = [t['dep'] if i in r['chan'] else float('nan') for i in range(n)]
                s['x0'] = s['X'].index(0.0)
                # depths of this step
                r['dep'] = [max(0.05, s['lwl'][r['online'][k - len(s['riv'])]] - r['elev'][k]) if r['flag'][k] == 1
                            else t['dep'] for k in range(nodes)]
                ref = morlib.reference(s)
                out = morlib.call(s, 'morphological update' + when)
                morlib.compare(out, ref)
                if any(min(out['Z'][i, 0], s['pars']['BackshoreElev'] - 0.5) - 0.1 <
                       (out['Z'][i, 3] if np.isnan(out['Y'][i, 1]) else max(out['Z'][i, 1], out['Z'][i, 3])) for i in range(n)) or \
                        any(out['Z'][i, 2] - 0.1 < max(out['Z'][i, 1], out['Z'][i, 3]) for i in range(n)) or out['oee'] > s['pars']['BeachTopElev'] - 0.1:
                    raise Discard       # generated deposition has filled a channel to the top of its banks
                events |= ref['events'] - morlib.PLAIN
                if ref['breach'] and s['closed']:
                    cl.add('reopened')
                s['Y'], s['Z'] = out['Y'].tolist(), out['Z'].tolist()
                s['oex'], s['oew'], s['oee'] = list(map(float, out['oex'])), out['oew'], out['oee']
                s['riv'] = list(map(float, out['riv']))
                s['mordt'] = out['dt']
                if out['breach']:
                    s['closed'] = False
                done += 1
                # a channel pushed together against the cliff closes (and is dissolved) in the next step
                valid(s, s['x0'], when, [i for i, v in ref['tev'].items() if 'pushed-into-cliff' in v])
                # the hydraulics stored for the next step
                s['rdep'], s['rvel'] = [t['dep']] * len(s['riv']), [0.5] * len(s['riv'])
                if not s['closed'] and not ref['events'] & {'channel-levelled', 'lagoonward-truncation'}:
                    lo, hi = sorted(s['oex'])
                    for i in range(n):
                        need(not lo <= s['X'][i] <= hi or s['Y'][i][1] == s['Y'][i][1], 'open outlet has no channel at transect %d%s', i, when)
                s['lvel'] = [0.3 if i in r['online'] else 0.0 for i in range(n)]
                s['ovel'] = [1.0 if i in r['chan'] else float('nan') for i in range(n)]
                nan = float('nan')
                s['oedep'], s['oevel'] = ([nan] * 2, [nan] * 2) if r['closed'] else ([t['dep']] * 2, [1.0] * 2)
    except Discard:
        if not done:
            raise
        cl.add('history-cut')
    if len(events) >= 2:
        cl.add('several-rearrangements')
    cl |= events
    cl.add('steps>=10' if done >= 10 else 'steps<10')
    return {'nontrivial': len(events) >= 2, 'classes': sorted(cl)}
