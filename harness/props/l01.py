"""L01 configuration validation and defaults."""
import os
from hypothesis import strategies as st
from core import *
import cfglib as cl

ID = 'L01'
RULE = ('valid configurations with every key given or omitted, values within / at the bounds of the documented range, '
        'different file layouts; or one fault: key missing, wrong type, outside range, section missing, file missing; '
        'non-trivial = a fault, or at least one default applied')
N = {'quick': 6000, 'thorough': 120000}
# values for which later stages have no meaning (division by zero); bounds there are approached, not reached
NOT_LO = {'Dx', 'Gravity', 'GammaRatio', 'RiverSlope', 'UpstreamLength', 'HydrographDt', 'SeaLevelDt', 'RhoSed', 'RhoSea',
          'TargetBarWidth', 'MaxIt'}
NOT_HI = {'VoidRatio'}
FLAT = [(s, k) for s in cl.KEYS for k in cl.KEYS[s]]
OWN = {'StartTime', 'EndTime', 'RiverFlow', 'WaveConditions', 'SeaLevel', 'InitialConditionsNetCDF', 'HotStartTime',
       'ContinueSimulation', 'Dx', 'ShorelineLengthLeft', 'ShorelineLengthRight', 'BeachWidth', 'UpstreamLength', 'RiverSlope',
       'SpitWidth', 'OutFile', 'TsOutFile', 'ModelName'}
BAD_NUM = ['abc', '!', '!1, 2', '1.2.3', 'None', '5 m', '!"', 'True', '1e', '--1']
BADS = [b for b in BAD_NUM if b not in ('!"', '!')] + ['']


def strategy(tier):
    @st.composite
    def s(draw):
        c = {'fault': draw(pick('none', 'none', 'missing', 'type', 'low', 'high', 'section', 'nofile')),
             'style': draw(st.integers(0, 23)), 'name': draw(pick('model', 'my.model', 'A b', 'x_1')),
             'out': draw(pick(None, 'res.nc')), 'ts': draw(pick(None, 'ts.nc'))}
        vals = {}
        for sec, k in FLAT:
            t, lo, hi, dflt, ex = cl.KEYS[sec][k]
            if k in OWN:
                continue
            if dflt is not cl.REQ and draw(st.booleans()):
                continue
            m = draw(st.integers(0, 6))
            if t == 'int':
                v = [1, 2, 100][m % 3]
            elif m == 0 and lo is not None and k not in NOT_LO:
                v = lo
            elif m == 1 and hi is not None and k not in NOT_HI:
                v = hi
            elif m == 2:
                v = ex
            elif m == 3 and hi is None:
                v = ex * 7
            elif m == 6:
                v = ex * draw(logf(1e-3, 1e3))
                if lo is not None and v < lo or hi is not None and v > hi or k in NOT_HI and v == hi:
                    v = ex
            elif m == 4:
                v = int(ex) if (lo is None or int(ex) > lo) and k not in NOT_HI and ex >= 1 else ex
            else:
                v = ex * (0.25 + 0.01 * draw(st.integers(0, 90)))
                if lo is not None and v < lo:
                    v = ex
            vals.setdefault(sec, {})[k] = v
        if draw(st.booleans()):
            vals.setdefault('PhysicalParameters', {}).update(
                RiverSlope=draw(pick(0.0005, 0.02, 0.1, 0.35, 1.0)), UpstreamLength=draw(fl(20.0, 2000.0)), SpitWidth=draw(fl(0.5, 60.0)))
            vals.setdefault('NumericalParameters', {})['Dx'] = draw(pick(5.0, 12.5, 33.3, 50.0))
        c['vals'] = vals
        cand = {'missing': [(a, b) for a, b in FLAT if cl.KEYS[a][b][3] is cl.REQ],
                'type': [(a, b) for a, b in FLAT],
                'low': [(a, b) for a, b in FLAT if cl.KEYS[a][b][1] is not None],
                'high': [(a, b) for a, b in FLAT if cl.KEYS[a][b][2] is not None]}
        if c['fault'] in cand:
            c['key'] = draw(st.sampled_from(cand[c['fault']]))
            if c['fault'] == 'type':
                t = cl.KEYS[c['key'][0]][c['key'][1]][0]
                c['bad'] = draw(st.sampled_from({'str': ['!a, b', '!x,'], 'float': BADS, 'bool': ['maybe', '!2.5', '!a, b'],
                                                 'int': BADS + ['2.5', '1e3']}[t]))
            c['by'] = draw(pick(1e-9, 1e-3, 0.5, 100.0))
        elif c['fault'] == 'section':
            c['sec'] = draw(pick('BoundaryConditions', 'InitialConditions', 'Time', 'PhysicalParameters',
                                 'NumericalParameters', 'OutputOptions'))
        return c
    return s()


def check(c):
    import pandas as pd
    from hapuamod import loadmod
    cfg = cl.base()
    for sec, d in c['vals'].items():
        cl.put(cfg, sec, **d)
    ph = cfg['PhysicalParameters']
    if ph.get('RhoSed', 2650.0) == ph.get('RhoSea', 1025.0) or ph['TargetBarWidth'] == ph['SpitWidth']:
        raise Discard()
    if c['out']:
        cl.put(cfg, 'OutputOptions', OutFile=c['out'])
    if c['ts']:
        cl.put(cfg, 'OutputOptions', TsOutFile=c['ts'])
    f = c['fault']
    if f == 'missing':
        cfg[c['key'][0]].pop(c['key'][1])
    elif f == 'type':
        cl.put(cfg, c['key'][0], **{c['key'][1]: c['bad']})
    elif f in ('low', 'high'):
        t, lo, hi, _d, _e = cl.KEYS[c['key'][0]][c['key'][1]]
        v = (lo - c['by'] if f == 'low' else hi + c['by']) if t == 'float' else lo - 1 - int(c['by'])
        cl.put(cfg, c['key'][0], **{c['key'][1]: v})
    elif f == 'section':
        for s in [s for s in cfg if s.split('/')[0] == c['sec']]:
            del cfg[s]
    with cl.folder('l01') as d:
        cl.plain_series(d, pd.Timestamp('2001-02-03'), pd.Timestamp('2001-02-05'))
        p = cl.write(d, cfg, c['name'] + '.cnf', c['style'])
        before = sorted(os.listdir(d))
        if f == 'nofile':
            os.remove(p)
            before.remove(c['name'] + '.cnf')
            for q in (p, d, os.path.join(d, 'sub', 'x.cnf')):
                try:
                    cl.load(q, allow=(FileNotFoundError,))
                except FileNotFoundError as e:
                    need(str(q) in str(e), 'missing configuration file reported without its name: %s', e)
                else:
                    raise Violation('missing configuration file %s accepted' % q)
            return {'nontrivial': True, 'classes': ['nofile']}
        if f == 'none':
            cwd = os.getcwd()
            m = cl.load(p)
            need(os.getcwd() == cwd, 'working directory changed by loading')
            verify(c, cfg, m)
        else:
            try:
                cl.load(p, 'loadModel (%s %s)' % (f, c.get('key') or c.get('sec')), allow=(loadmod.ConfigError,))
            except loadmod.ConfigError as e:
                msg = str(e) + ' ' + str(getattr(e, 'message', ''))
                sec = c['key'][0] if 'key' in c else c['sec']
                need(sec.split('/')[-1] in msg, 'error for fault in section %s names no such section: %s', sec, msg)
                if 'key' in c:
                    need('"%s"' % c['key'][1] in msg, 'error for faulty key %s does not name it: %s', c['key'][1], msg)
            else:
                raise Violation('configuration with %s %s accepted' % (
                    f, ('%s/%s = %r' % (c['key'][0], c['key'][1], cfg[c['key'][0]].get(c['key'][1], '(absent)')))
                    if 'key' in c else c['sec']))
        need(sorted(os.listdir(d)) == before, 'loading a configuration changed files: %s -> %s', before, sorted(os.listdir(d)))
    return {'nontrivial': True, 'classes': [f]}


def verify(c, cfg, m):
    import pandas as pd

    def want(sec, k):
        d = cl.KEYS[sec][k]
        return cfg.get(sec, {}).get(k, d[3])

    def val(got, sec, k):
        w = want(sec, k)
        t = cl.KEYS[sec][k][0]
        need(got == w and isinstance(got, int if t == 'int' else float), '%s/%s is %r, expected %r', sec, k, got, w)
    need(m.ModelName == want('', 'ModelName'), 'model name %r', m.ModelName)
    for k in cl.KEYS['PhysicalParameters']:
        need(k in m.PhysicalPars, 'physical parameter %s missing', k)
        val(m.PhysicalPars[k], 'PhysicalParameters', k)
    for k in cl.KEYS['NumericalParameters']:
        need(k in m.NumericalPars, 'numerical parameter %s missing', k)
        val(m.NumericalPars[k], 'NumericalParameters', k)
    for k in ('HydDt', 'MorDtMin', 'MorDtMax'):
        need(abs(m.TimePars[k] / pd.Timedelta(seconds=1) - want('Time', k)) < 1e-6, '%s is %s, expected %s s', k, m.TimePars[k], want('Time', k))
    for k in ('StartTime', 'EndTime'):
        need(m.TimePars[k] == pd.Timestamp(want('Time', k)), '%s is %s', k, m.TimePars[k])
    for k in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt'):
        need(abs(m.OutputOpts[k] / pd.Timedelta(seconds=1) - want('OutputOptions', k)) < 1e-6, '%s is %s, expected %s s', k, m.OutputOpts[k], want('OutputOptions', k))
    need(m.OutputOpts['OutFile'] == (c['out'] or c['name'] + '_outputs.nc'), 'output file %r', m.OutputOpts['OutFile'])
    need(m.OutputOpts['TsOutFile'] == (c['ts'] or c['name'] + '_TSoutputs.nc'), 'time series output file %r', m.OutputOpts['TsOutFile'])
