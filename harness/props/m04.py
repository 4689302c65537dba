"""M04 mirror symmetry of assembly, transport and morphology."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import morlib
import rivlib
from props import m05, m06

ID = 'M04'
RULE = ('random coasts, waves and forcing (as M01/M05/M06 combined) run as they are and mirrored left-right; non-trivial = '
        'open outlet, or a rearrangement happened')
N = {'quick': 2400, 'thorough': 70000}


def tweak(draw, g):
    g['wave'] = {'P': draw(fl(0.0, 40000.0)), 'T': draw(fl(3.0, 16.0)), 'L': draw(fl(20.0, 150.0)), 'dir': draw(sfl(1.5))}
    if draw(st.integers(0, 2)) == 0:
        g['num'] = {'MaxMorChange': draw(pick(0.5, 5.0, 60.0))}
    k = draw(st.integers(0, 2))     # a third each with outlets on the move and with failing barriers
    if k == 1 and not g['closed']:
        m06.tweak(draw, g)
    elif k == 2:
        m05.tweak(draw, g)


def first(draw):
    return {'thin': draw(pick(0.0, 0.1, 0.3)), 'relics': draw(st.booleans()), 'gaps': draw(st.booleans())}


def strategy(tier):
    return morlib.strategy(tier, tweak=tweak, first=first)


def mirror(s):
    m = rivlib.mirrored(s)
    m['lst'] = [-v + 0.0 for v in reversed(s['lst'])]
    m['cst'] = list(reversed(s['cst']))
    m['ow'] = list(reversed(s['ow']))
    n = len(s['X'])
    m['x0'] = n - 1 - s['x0']
    return m


def drift(s, sign):
    from hapuamod import coast
    w = s['wave']
    with sut('longshore transport'):
        q = coast.longShoreTransport(np.array(s['Y'], float), s['dx'], w['P'], w['T'], w['L'], sign * w['dir'],
                                     copy.deepcopy(s['pars']))
    finite(q, 'longshore transport')
    return q


def asm(s):
    g = rivlib.call(s)
    return {'dx': [float(v) for v in g['dx']], 'elev': [float(v) for v in g['elev']], 'width': [float(v) for v in g['width']],
            'dep': [float(v) for v in g['dep']], 'flag': [int(v) for v in g['flag']],
            'online': [int(v) for v in g['online']], 'chan': [int(v) for v in g['chan']], 'closed': g['closed']}


def check(c):
    c = dict(c)
    s = morlib.prepare(c)
    inline = s['oex'][0] == 0 or s['oex'][0] != s['oex'][0]
    if inline and s['closed']:
        raise Discard        # which way a closed in-line lagoon is numbered is a convention
    if s['oex'][1] in s['X'] and not s['closed'] and c['wave'] is not None:
        onx = True           # drift across a mouth exactly on a transect has no mirrored equivalent
    else:
        onx = False
    m = mirror(s)
    n = len(s['X'])
    q, qm = drift(s, 1), drift(m, -1)
    close(-qm[::-1], q, 'mirrored longshore transport', 1e-7, 1e-9)
    if not onx and int(sum(abs(v) for v in s['bed']) * 1000) % 2:
        s['lst'] = [float(v) for v in q]     # transport computed from the waves half of the time
        m['lst'] = [-v + 0.0 for v in reversed(s['lst'])]
    if onx:
        s['lst'] = [0.0] * (n - 1)
        m['lst'] = [0.0] * (n - 1)
    s['ch'], m['ch'] = asm(s), asm(m)
    need(s['ch']['closed'] == m['ch']['closed'] and s['ch']['flag'] == m['ch']['flag'] and
         [n - 1 - i for i in m['ch']['online']] == s['ch']['online'] and
         [n - 1 - i for i in m['ch']['chan']] == s['ch']['chan'], 'mirrored channel takes another path')
    for k in ('dx', 'elev', 'width', 'dep'):
        close(m['ch'][k], s['ch'][k], 'mirrored channel ' + k, 1e-9, 1e-8)
    r = morlib.reference(s)      # only to recognise ties and documented limitations
    rm = morlib.reference(m)
    g = morlib.call(s)
    h = morlib.call(m, 'mirrored morphological update')
    need(g['breach'] == h['breach'], 'breach only in one of the mirrored models')
    close(h['dt'], g['dt'], 'mirrored timestep', 1e-9, 1e-6)
    close([-v for v in h['oex']], g['oex'], 'mirrored outlet end positions', 1e-9, 1e-8)
    close(h['Y'][::-1], g['Y'], 'mirrored plan geometry', 1e-9, 1e-8)
    close(h['Z'][::-1], g['Z'], 'mirrored levels', 1e-9, 1e-8)
    close(h['riv'], g['riv'], 'mirrored river bed', 1e-9, 1e-8)
    close([h['oew'], h['oee']], [g['oew'], g['oee']], 'mirrored outlet end', 1e-9, 1e-8)
    ev = r['events'] - morlib.PLAIN
    return {'nontrivial': bool(ev) or not s['closed'], 'classes': sorted(ev)}
