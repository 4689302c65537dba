"""S02 synthetic harmonic tide."""
import math
import numpy as np
from hypothesis import strategies as st
from core import *

ID = 'S02'
RULE = ('random start, duration 0..40 days (not a multiple of the interval), interval 1 s .. 6 h, level and range; '
        'non-trivial = more than 2 points and non-zero range')
N = {'quick': 1200, 'thorough': 30000}


def strategy(tier):
    @st.composite
    def s(draw):
        step = draw(st.one_of(pick(60, 300, 900, 1800, 3600, 21600), st.integers(1, 20000)))
        return {'start': draw(st.integers(0, 400 * 1440)), 'step': step,
                'dur': draw(st.one_of(st.integers(0, 300 * step), st.integers(0, 300).map(lambda k: k * step))),
                'msl': draw(sfl(3.0)), 'range': draw(fl(0.0, 8.0)), 'dt': draw(pick('ts', 'py'))}
    return s()


def check(c):
    import pandas as pd
    from hapuamod import synth
    t0 = pd.Timestamp('1999-11-30') + pd.Timedelta(minutes=c['start'])
    t1 = t0 + pd.Timedelta(seconds=c['dur'])
    a, b = (t0, t1) if c['dt'] == 'ts' else (t0.to_pydatetime(), t1.to_pydatetime())
    with sut('harmonic tide'):
        ts = synth.harmonicTide(a, b, pd.Timedelta(seconds=c['step']), c['msl'], c['range'])
    n = c['dur'] // c['step'] + 1
    need(len(ts) == n, 'tide series has %d points, expected %d', len(ts), n)
    for i in sorted({0, 1, n // 3, n // 2, n - 1} & set(range(n))):
        need(ts.index[i] == t0 + pd.Timedelta(seconds=c['step'] * i), 'time of point %d is %s', i, ts.index[i])
    per = 12 * 3600 + 25 * 60 + 12
    want = [c['msl'] + c['range'] / 2 * math.sin(2 * math.pi * (i * c['step']) / per) for i in range(n)]
    close(ts.values, want, 'tide level', 1e-9, 1e-8)
    return {'nontrivial': n > 2 and c['range'] > 0}
