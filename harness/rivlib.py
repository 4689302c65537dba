"""Calls into the channel assembly / storage code and compares with the reference assembly."""
import copy
import numpy as np
from core import *
import gen
import ref_riv

MARGIN = 1e-9


def pars_of(s):
    return copy.deepcopy(s['pars'])


def reference(s):
    """Reference assembly, or Discard where no valid channel exists / a decision is ambiguous."""
    M = ref_riv.Margin()
    try:
        ch = ref_riv.assemble(s, M)
    except ValueError:
        raise Discard
    if M.min < MARGIN:
        raise Discard
    return ch


def call(s, what='assembling the channel'):
    """Run assembleChannel on a state with plain values; inputs must stay untouched."""
    from hapuamod import riv
    a = {'X': np.array(s['X'], float), 'Y': np.array(s['Y'], float), 'Z': np.array(s['Z'], float),
         'oex': np.array(s['oex'], float), 'riv': np.array(s['riv'], float),
         'rdep': np.array(s['rdep'], float), 'rvel': np.array(s['rvel'], float),
         'lwl': np.array(s['lwl'], float), 'lvel': np.array(s['lvel'], float),
         'odep': np.array(s['odep'], float), 'ovel': np.array(s['ovel'], float),
         'oedep': np.array(s['oedep'], float), 'oevel': np.array(s['oevel'], float)}
    oew, oee = np.asarray(float(s['oew'])), np.asarray(float(s['oee']))
    keep = {k: v.copy() for k, v in a.items()}
    pp = pars_of(s)
    with sut(what):
        r = riv.assembleChannel(a['X'], a['Y'], a['Z'], a['oex'], oew, oee, bool(s['closed']), a['riv'], a['rdep'],
                                a['rvel'], a['lwl'], a['lvel'], a['odep'], a['ovel'], a['oedep'], a['oevel'],
                                s['dx'], pp)
    for k, v in keep.items():
        need(np.array_equal(a[k], v, equal_nan=True), 'assembling the channel modified its input "%s"', k)
    need(pp == s['pars'], 'assembling the channel modified the parameters')
    names = ('dx', 'elev', 'width', 'area', 'len', 'dep', 'vel', 'online', 'chan', 'flag', 'closed')
    need(len(r) == len(names), 'unexpected result of assembling the channel')
    d = dict(zip(names, r))
    d['closed'] = bool(d['closed'])
    return d


def compare(g, r):
    need(g['closed'] == r['closed'], 'outlet is %s, expected %s', 'closed' if g['closed'] else 'open',
         'closed' if r['closed'] else 'open')
    need([int(v) for v in g['online']] == r['online'], 'online lagoon transects %s, expected %s',
         [int(v) for v in g['online']], r['online'])
    need([int(v) for v in g['chan']] == r['chan'], 'outlet transects %s, expected %s', [int(v) for v in g['chan']], r['chan'])
    need([int(v) for v in g['flag']] == r['flag'], 'cross-section origins %s, expected %s', [int(v) for v in g['flag']], r['flag'])
    for k, name in (('dx', 'cross-section spacing'), ('elev', 'bed level'), ('width', 'width'),
                    ('area', 'offline lagoon area'), ('len', 'lagoon length'), ('dep', 'depth'), ('vel', 'velocity')):
        close(g[k], r[k], name, 1e-9, 1e-8)


def mirrored(s):
    """Mirror image (left-right) of a state."""
    m = copy.deepcopy(s)
    m['X'] = [-x + 0.0 for x in reversed(s['X'])]
    for k in ('Y', 'Z', 'lwl', 'lvel', 'odep', 'ovel'):
        m[k] = list(reversed(s[k]))
    m['oex'] = [(-v + 0.0) if v == v else v for v in s['oex']]
    return m


