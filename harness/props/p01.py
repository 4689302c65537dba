"""P01 wave preprocessing script against scalar linear wave theory."""
import ast
import contextlib
import math
import os
import shutil
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl

ID = 'P01'
RULE = ('random wave-model tables (1..12 records at random times, all directions and depths) and shore directions run through the script; '
        'non-trivial = at least one onshore and one offshore directed record')
N = {'quick': 300, 'thorough': 9000}
ASSUMPTIONS = ['onshore records whose direction no deep water wave can refract to, or within 0.5 degrees of alongshore, are outside the domain (height not compared)',
               'the script has its file names and the shore direction written in its text: the direction is substituted there, reading and writing is redirected']
SCRIPT = os.path.join(REPO, 'preprocessing', 'WaveDataFromSwanOutput.py')
OTHER = 16


def strategy(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 12))
        step = draw(pick(60, 180, 30, 10, 1440))
        rec = []
        for _ in range(n):
            T = draw(fl(2.0, 18.0))
            L = draw(fl(6.0, 200.0))
            kd = draw(fl(0.1, 4.0)) if draw(st.booleans()) else draw(fl(0.1, 0.8))
            rec.append([draw(fl(0.0, 6.0)), T, round(L, 4), round(kd * L / (2 * math.pi), 4), draw(fl(0.0, 360.0)), draw(fl(0.0, 360.0)), draw(pick(0.0, 1.0)) * draw(fl(0.001, 20.0))])
        return {'rec': rec, 'start': draw(st.integers(0, 600000)), 'step': step, 'dir': draw(st.integers(0, 719)) / 2, 'sep': draw(pick(' ', '   ')),
                'head': draw(pick('%', 'text 1 2 3')), 'noise': draw(fls(-5.0, 5.0, OTHER)), 'load': draw(st.integers(0, 3)) == 0}
    return s()


def program(shoredir):
    """The script with another shore direction; the file names in it."""
    with open(SCRIPT, 'rb') as f:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(f.read())
    done = False
    for node in ast.walk(tree):
        if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'ShoreNormalDir' for t in node.targets):
            node.value = ast.copy_location(ast.Constant(shoredir), node.value)
            done = True
    return compile(tree, SCRIPT, 'exec'), (shoredir if done else 128)


def redirected(src, dst):
    """Tables are read from src and written to dst whatever the file names in the script."""
    import pandas as pd
    from unittest import mock
    rt, rc, tc = pd.read_table, pd.read_csv, pd.DataFrame.to_csv
    st_ = contextlib.ExitStack()
    st_.enter_context(mock.patch.object(pd, 'read_table', lambda _f, *a, **k: rt(src, *a, **k)))
    st_.enter_context(mock.patch.object(pd, 'read_csv', lambda _f, *a, **k: rc(src, *a, **k)))
    st_.enter_context(mock.patch.object(pd.DataFrame, 'to_csv', lambda self, _f, *a, **k: tc(self, dst, *a, **k)))
    return st_


def check(c):
    import pandas as pd
    t0 = pd.Timestamp('1998-01-01') + pd.Timedelta(minutes=c['start'])
    times = [t0 + pd.Timedelta(minutes=c['step'] * i) for i in range(len(c['rec']))]
    code, shoredir = program(c['dir'])
    src, dst = 'swan.txt', 'table.csv'
    with cl.folder('p01') as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            with open(src, 'w') as f:
                f.write((c['head'] + '\n') * 27)
                o = c['noise']
                for t, (hs, T, L, dep, wd, pd_, tr) in zip(times, c['rec']):
                    x, y = tr * math.sin(math.radians(pd_)), tr * math.cos(math.radians(pd_))
                    row = ['%.6f' % (t.hour + 0.5), t.year, t.month, t.day, t.hour, t.minute, '%.6f' % hs, '%.5f' % o[0], '%.5f' % T, '%.5f' % o[1], '%.5f' % wd,
                           '%.5f' % o[2], '%.5f' % o[3], '%.5f' % o[4], '%.5f' % o[5], '%.5f' % o[6], '%.5f' % o[7], '%.5f' % L, '%.5f' % dep,
                           '%.9f' % x, '%.9f' % y] + ['%.5f' % v for v in o[8:12]]
                    f.write(c['sep'].join([''] + [str(v) for v in row]) + '\n')
            import warnings
            with redirected(src, dst), sut('preprocessing script'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                exec(code, {'__name__': '__main__'})
            need(os.path.exists(dst), 'no output table written')
            tab = pd.read_csv(dst)
        finally:
            os.chdir(cwd)
        cols = ['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore']
        for k in ['DateTime'] + cols:
            need(k in tab.columns, 'output table has no column %s', k)
        need(len(tab) == len(times), '%d records written, expected %d', len(tab), len(times))
        got = pd.to_datetime(tab['DateTime'], format='%d/%m/%Y %H:%M')
        on = off = 0
        for i, (t, (hs, T, L, dep, wd, pd_, tr)) in enumerate(zip(times, c['rec'])):
            r = tab.iloc[i]
            need(got[i] == t, 'record %d has time %s, expected %s', i, got[i], t)
            close(float(r['WavePeriod']), T, 'period of record %d' % i, 1e-9, 6e-4)
            close(float(r['Wlen_h']), L, 'wavelength of record %d' % i, 1e-9, 6e-4)
            close(float(r['WavePower']), 1025 * 9.81 * tr, 'wave power of record %d' % i, 1e-5, 2e-3)
            e = float(r['EDir_h'])
            need(0 <= e <= 360, 'arrival direction of record %d is %r', i, e)
            if tr > 1e-3:
                miss = abs((e - (pd_ + 180) + 180) % 360 - 180)
                need(miss < 2e-3 + 1e-6 / tr, 'arrival direction of record %d is %.3f, expected %.3f', i, e, (pd_ + 180) % 360)
            a = math.radians((shoredir - wd + 180) % 360 - 180)
            if abs(math.degrees(a)) > 90.01:
                close(float(r['Hsig_Offshore']), 0.0, 'offshore height of offshore directed record %d' % i, 0, 1e-9)
                off += 1
            elif abs(math.degrees(a)) < 89.5:
                k = 2 * math.pi / L
                c0c = 1 / math.tanh(k * dep)
                s0 = math.sin(a) * c0c
                n = 0.5 * (1 + 2 * k * dep / math.sinh(2 * k * dep))
                if abs(s0) < 0.999:
                    # conservation of energy flux between rays: H^2 n C cos(a) is constant
                    want = hs * math.sqrt(n / 0.5 / c0c * math.cos(a) / math.sqrt(1 - s0 * s0))
                    close(float(r['Hsig_Offshore']), want, 'offshore height of record %d' % i, 2e-3, 1e-3)
                    on += 1
        if c['load'] and len(times) > 1:
            shutil.copy(os.path.join(d, dst), os.path.join(d, 'w2.csv'))
            t1 = times[-1]
            cl.plain_series(d, t0 - pd.Timedelta(hours=1), t1 + pd.Timedelta(hours=1))
            shutil.copy(os.path.join(d, 'w2.csv'), os.path.join(d, 'waves.csv'))
            cfg = cl.base()
            cl.put(cfg, 'Time', StartTime=t0.strftime('%Y-%m-%d %H:%M'), EndTime=t1.strftime('%Y-%m-%d %H:%M'))
            m = cl.load(cl.write(d, cfg), 'loading the written table as wave conditions')
            need(list(m.WaveTs.index) == times, 'wave conditions loaded at %s, expected %s', list(m.WaveTs.index)[:3], times[:3])
            close(m.WaveTs['WavePower'].values, tab['WavePower'].values, 'loaded wave power')
            close(m.WaveTs['Hsig_Offshore'].values, tab['Hsig_Offshore'].values, 'loaded offshore height')
    return {'nontrivial': on > 0 and off > 0, 'classes': ['loaded' if c['load'] else 'table', 'subhourly' if c['step'] % 60 else 'hourly']}
