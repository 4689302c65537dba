"""O03 closest stored time."""
import os
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import outlib as ol

ID = 'O03'
RULE = ('files of 1..40 increasing output times (seconds to years apart, fractional seconds) and requests at, between (incl. exactly half way), '
        'before and after them; non-trivial = request not equal to a stored time')
N = {'quick': 900, 'thorough': 20000}


def strategy(tier):
    @st.composite
    def s(draw):
        n = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
        unit = draw(pick(1, 2, 4, 240, 14400, 4 * 86400))          # quarter seconds
        gaps = [1 + v for v in draw(ints(n, 3 if draw(st.booleans()) else 10000))]
        return {'start': draw(st.integers(-10 ** 9, 10 ** 9)), 'gaps': [k * unit for k in gaps],
                'req': [[draw(pick('at', 'half', 'near', 'any', 'before', 'after')), draw(st.integers(0, 10 ** 6)), draw(pick(-1, 1, -2, 2))] for _ in range(6)],
                'form': draw(pick('ts', 'py')), 'ts': draw(st.booleans())}
    return s()


def check(c):
    import netCDF4
    import pandas as pd
    from hapuamod import out
    start = pd.Timestamp('2005-05-05') + pd.Timedelta(seconds=c['start'])
    q = np.concatenate([[0], np.cumsum(c['gaps'])[:-1]]).astype('int64')
    if q[-1] > 10 ** 10:      # keep within dates that can be represented
        q = np.arange(len(q)) + q * 10 ** 10 // q[-1]
    n = len(q)
    nontriv = False
    with cl.folder('o03') as d:
        p = os.path.join(d, 'o.nc')
        g = {'dx': 10.0, 'n': 3, 'k0': 0, 'nr': 1}
        if c['ts']:
            with sut('newTsOutFile'):
                out.newTsOutFile(p, 'x', start)
        else:
            ol.create(p, g, start)
        with netCDF4.Dataset(p, 'a') as nc:
            base = netCDF4.date2num(start.to_pydatetime(), nc.variables['time'].units)
            nc.variables['time'][:] = base + q / 4.0
        with netCDF4.Dataset(p) as nc:
            for kind, k, e in c['req']:
                i = k % n
                if kind == 'at':
                    r = q[i]
                elif kind == 'half' and n > 1:
                    i %= n - 1
                    r = (q[i] + q[i + 1]) / 2
                elif kind == 'near' and n > 1:
                    i %= n - 1
                    r = (q[i] + q[i + 1]) / 2 + e
                elif kind == 'before':
                    r = -1 - k
                elif kind == 'after':
                    r = q[-1] + 1 + k
                else:
                    r = int(q[-1]) * k // 10 ** 6
                r = float(r)
                t = start + pd.Timedelta(milliseconds=int(r * 250))
                d_ = np.abs(q - r)
                w = int(np.argmin(d_))
                nontriv |= d_[w] != 0
                with sut('closestTimeIx'):
                    ix, ct = out.closestTimeIx(nc, t if c['form'] == 'ts' else t.to_pydatetime())
                ix = np.ravel(ix)
                need(ix.size == 1, '%d positions returned', ix.size)
                need(int(ix[0]) == w, 'request %s answered with time %d of %d (%g quarter seconds away), closest is %d (%g away)', t, int(ix[0]), n,
                     d_[int(ix[0])], w, d_[w])
                need(abs((pd.Timestamp(ct) - start - pd.Timedelta(milliseconds=int(q[w]) * 250)).total_seconds()) < 1e-4, 'closest time returned as %s', ct)
    return {'nontrivial': bool(nontriv), 'classes': ['single' if n == 1 else 'many']}
