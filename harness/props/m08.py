"""M08 repeatability of steps and absence of side effects."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from core import *
import morlib
import rivlib
from props import m05, m06, m07

ID = 'M08'
RULE = ('pairs of random coasts (generators of M01, M05-M07); each step repeated bitwise with memory filled with other values, '
        'other steps run in between, and inputs in column ordered or strided arrays; non-trivial = a rearrangement happened')
N = {'quick': 1600, 'thorough': 50000}


def strategy(tier):
    any_ = st.one_of(morlib.strategy(tier), m05.strategy(tier), m06.strategy(tier), m07.strategy(tier))

    @st.composite
    def s(draw):
        a = draw(any_)
        b = draw(any_)
        w = {'P': draw(logf(100.0, 1e5)), 'T': draw(fl(5.0, 14.0)), 'L': draw(fl(20.0, 130.0)), 'dir': draw(sfl(1.4)),
             'run': draw(fl(0.0, 6.0)), 'sea': draw(sfl(1.5))}
        return {'a': a, 'b': b, 'wave': w, 'fill': draw(pick(1e30, -7.0, 0.0)), 'layout': draw(pick('F', 'strided', 'C')),
                'like': draw(pick('dx', 'dx', 'pars', 'pars', 'shift', 'rates', 'levels', 'waves', 'beds')), 'which': draw(st.integers(0, 11))}
    return s()


def pollute(v, n):
    """Leave freed blocks of memory of likely sizes filled with v."""
    junk = [np.full(k, v) for k in range(1, 3 * n) for _ in range(3)] + \
           [np.full((k, 5), v) for k in range(1, n + 2)] + [np.full((k, 4), v) for k in range(1, n + 2)]
    del junk


def relayout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full(tuple(2 * k for k in a.shape), np.nan)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


def transport(s, w, how='C'):
    from hapuamod import coast
    Y, Z = relayout(np.array(s['Y'], float), how), relayout(np.array(s['Z'], float), how)
    y0, z0, p = Y.copy(), Z.copy(), copy.deepcopy(s['pars'])
    with sut('transport'):
        q = coast.longShoreTransport(Y, s['dx'], w['P'], w['T'], w['L'], w['dir'], p)
        c, o = coast.overtopping(w['run'], w['sea'], Y, Z, p)
    need(np.array_equal(Y, y0, equal_nan=True) and np.array_equal(Z, z0, equal_nan=True), 'computing transport changed the geometry')
    need(p == s['pars'], 'computing transport changed the parameters')
    return np.array(q, float), np.array(c, float), np.array(o, float)


def same(a, b, what):
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        need(x.shape == y.shape and np.array_equal(x, y, equal_nan=(x.dtype.kind == 'f')), '%s: "%s" differs', what, k)


def run(s, w, how='C'):
    q, c, o = transport(s, w, how)
    g = rivlib.call(s)
    m = morlib.call(s, layout=lambda a: relayout(a, how))
    return {'lst': q, 'cst': c, 'ow': np.array(o, float), **{'ch_' + k: np.array(v) for k, v in g.items()},
            **{'m_' + k: np.array(v) for k, v in m.items()}}


PARS = ('OutletSedSpreadDist', 'SpitWidth', 'ClosureDepth', 'RiverWidth', 'BeachTopElev', 'MinOutletWidth', 'WidthDepthRatio', 'Dx',
        'GrainSize', 'BeachSlope', 'OutletBankEroFac', 'OT_coef')


def related(c, w):
    """A step that differs from that of the case in one respect only (everything else is exactly equal), or None."""
    b, w = copy.deepcopy(c['a']), dict(w)
    how = c['like']

    def add(v, d, k=1.0):
        return [add(x, d, k) for x in v] if isinstance(v, list) else v if v is None else v * k + d
    if how == 'dx':
        b['X'] = add(b['X'], 0.0, 1.03)
        b['dx'] = b['dx'] * 1.03
    elif how == 'pars':
        k = [x for x in PARS if x in b['pars']][c['which'] % sum(x in b['pars'] for x in PARS)]
        b['pars'][k] *= 0.9
    elif how == 'shift':
        b['Y'] = add(b['Y'], 0.75)
    elif how == 'beds':
        b['Z'] = add(b['Z'], 0.0, 0.97)
    elif how == 'rates':
        for k in ('lst', 'bed', 'cst'):
            b[k] = add(b[k], 0.0, 0.8)
    elif how == 'levels':
        b['lwl'], b['odep'] = add(b['lwl'], 0.02), add(b['odep'], 0.02)
    elif how == 'waves':
        w.update(dir=w['dir'] * 0.9, sea=w['sea'] + 0.05)
    try:
        s = morlib.prepare(b)
        morlib.reference(s)
    except Discard:
        return None, w
    return s, w


def reload():
    """Start the modules afresh (nothing remembered from earlier calls)."""
    import importlib
    from hapuamod import geom, coast, riv, mor
    for m in (geom, coast, riv, mor):
        importlib.reload(m)


def check(c):
    a, b = morlib.prepare(c['a']), morlib.prepare(c['b'])
    ra = morlib.reference(a)      # recognises ambiguous / documented out of domain steps
    morlib.reference(b)
    w, n = c['wave'], len(a['X'])
    first = run(a, w)
    pollute(c['fill'], n)
    same(first, run(a, w), 'repeating the step')
    run(b, dict(w, dir=-w['dir'], P=w['P'] * 2))
    pollute(float('nan'), n)
    same(first, run(a, w, c['layout']), 'repeating the step after another one')
    cl = sorted(ra['events'] - morlib.PLAIN)
    r, rw = related(c, w)
    if r is not None:
        with sut('a step like the one before'):
            after = run(r, rw)
            reload()
            same(run(r, rw), after, 'a step run after another one that differs in %s only' % c['like'])
        cl.append('like-' + c['like'])
    return {'nontrivial': bool(ra['events'] - morlib.PLAIN), 'classes': cl}
