"""Runs one morphological step of the code under test and compares it with the reference step."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import gen
import ref_riv
import ref_mor

DTTOL = 1e-5
MARGIN = 1e-7


def strategy(tier, quiet=None, tweak=None, first=None, **kw):
    @st.composite
    def s(draw):
        g = gen.geometry(draw, **(dict(kw, **first(draw)) if first else kw))
        gen.hydraulics(draw, g)
        g['num'] = gen.numeric(draw)
        g['dtmin'], g['dtmax'], g['mordt'] = gen.times(draw)
        # number of nodes follows from the geometry: generate for the longest possible channel and cut
        nodes = 2 * len(g['X']) + len(g['riv']) + 4
        gen.forcing(draw, g, nodes, quiet)
        if tweak:
            tweak(draw, g)
        return g
    return s()


def prepare(c):
    """JSON case -> numeric state with assembled channel (reference assembly)."""
    s = gen.clean(c)
    M = ref_riv.Margin()
    try:
        ch = ref_riv.assemble(s, M)
    except ValueError:
        raise Discard
    if M.min < MARGIN:
        raise Discard
    if ch['closed'] and not s['closed']:
        s['closed'] = True      # closure is detected before the morphology is updated
    s['ch'] = ch
    nodes = len(ch['flag'])
    s['bed'] = s['bed'][:nodes - 1]
    if s.get('lastbed') is not None:
        s['bed'] = s['bed'][:-1] + [s['lastbed']]
    return s


def timepars(s):
    import pandas as pd
    return {'StartTime': pd.Timestamp(2000, 1, 1), 'EndTime': pd.Timestamp(2001, 1, 1),
            'HydDt': pd.Timedelta(seconds=s['dtmin']), 'MorDtMin': pd.Timedelta(seconds=s['dtmin']),
            'MorDtMax': pd.Timedelta(seconds=s['dtmax'])}


def call(s, what='morphological update', layout=lambda a: a):
    """Run the code under test on state s.  Returns new state (numpy) in a dict."""
    import pandas as pd
    from hapuamod import mor
    ch = s['ch']
    X = np.array(s['X'], float)
    Y, Z = layout(np.array(s['Y'], float)), layout(np.array(s['Z'], float))
    oex = np.array(s['oex'], float)
    oew, oee = np.asarray(float(s['oew'])), np.asarray(float(s['oee']))
    riv = np.array(s['riv'], float)
    online = np.array(ch['online'], dtype=int)
    chan = np.array(ch['chan'], dtype=int) if not ch['closed'] else np.empty(0)
    lwl = np.array(s['lwl'], float)
    odep = np.array(s['odep'], float)
    cw, cd = np.array(ch['width'], float), np.array(ch['dep'], float)
    cdx, fl_ = np.array(ch['dx'], float), np.array(ch['flag'])
    lst, bed, cst, ow = (np.array(s[k], float) for k in ('lst', 'bed', 'cst', 'ow'))
    ow = ow.astype(bool)
    mordt = pd.Timedelta(seconds=s['mordt'])
    pars = copy.deepcopy(s['pars'])
    num = dict(s['num'], Dx=s['dx'])
    ro = {'X': X, 'lst': lst, 'bed': bed, 'cst': cst, 'ow': ow, 'lwl': lwl, 'odep': odep, 'width': cw,
          'dep': cd, 'dx': cdx, 'flag': fl_, 'online': online, 'chan': chan}
    keep = {k: v.copy() for k, v in ro.items()}
    tp = timepars(s)
    with sut(what):
        dt, breach = mor.updateMorphology(X, Y, Z, oex, oew, oee, riv, online, chan, lwl, odep, cw, cd, cdx, fl_,
                                          s['closed'], lst, bed, cst, ow, mordt, pars, tp, num)
    for k, v in ro.items():
        need(np.array_equal(v, keep[k], equal_nan=(v.dtype.kind == 'f')), 'morphological update modified its input "%s"', k)
    need(pars == s['pars'], 'morphological update modified the physical parameters')
    return {'Y': Y, 'Z': Z, 'oex': oex, 'oew': float(oew), 'oee': float(oee), 'riv': riv,
            'dt': dt.total_seconds(), 'breach': bool(breach)}


def reference(s):
    M = ref_mor.Margin()
    try:
        r = ref_mor.step(s, M)
    except (ValueError, ZeroDivisionError, IndexError):
        raise Discard
    if M.min < MARGIN or r.get('tie') or r.get('edge_connected'):
        raise Discard
    if not s['closed'] and len(s['ch']['chan']) > 1:
        a, b = s['oex'], r['gradual'][2]
        if (a[1] - a[0]) * (b[1] - b[0]) <= 0:
            raise Discard       # end carried back beyond its upstream end within one step (change limit > Dx)
    return r


PLAIN = {'dt-halved', 'dt-doubled', 'capped'}


def compare(g, r, rtol=1e-9, atol=1e-8):
    need(g['breach'] == r['breach'], 'breach flag is %s, expected %s', g['breach'], r['breach'])
    close(g['dt'], r['dt'], 'morphological timestep', 1e-9, 1e-6)
    close(g['oex'], r['oex'], 'outlet end positions', rtol, atol)
    names = ['shoreline position', 'seaward channel bank', 'lagoonward channel bank', 'lagoon edge', 'cliff position']
    for j in range(5):
        close(g['Y'][:, j], [v[j] for v in r['Y']], names[j], rtol, atol)
    names = ['barrier crest', 'channel bed', 'inner barrier crest', 'lagoon bed']
    for j in range(4):
        close(g['Z'][:, j], [v[j] for v in r['Z']], names[j], rtol, atol)
    close(g['riv'], r['riv'], 'river bed', rtol, atol)
    close(g['oew'], r['oew'], 'outlet end width', rtol, atol)
    close(g['oee'], r['oee'], 'outlet end bed', rtol, atol)
