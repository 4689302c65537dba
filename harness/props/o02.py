"""O02 consent before overwriting results."""
import builtins
import os
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import outlib as ol

ID = 'O02'
RULE = ('either output file, existing as arbitrary bytes / a results file / absent; overwrite flag on or off; any answer typed incl. '
        'end of input; non-trivial = existing file without the flag')
N = {'quick': 900, 'thorough': 20000}
YES = ['Y', 'y', 'Yes', 'yes', 'YES']


def strategy(tier):
    @st.composite
    def s(draw):
        g = ol.grid(draw)
        ans = draw(st.one_of(pick(*YES), pick('n', 'N', 'no', 'No', '', 'nay', '0', '1', 'true', 'maybe', 'ok', '?', 'NO', 'anyway', 'never y'),
                             st.text(max_size=6), pick(None)))
        return {'file': draw(pick('out', 'ts')), 'exists': draw(pick('no', 'bytes', 'empty', 'results', 'results')),
                'flag': draw(pick(False, False, True)), 'ans': ans, 'g': g, 'content': draw(ints(40, 255)),
                'org': [draw(sfl(2e6)), draw(sfl(6e6))], 'nd': draw(sfl(6.28)), 'name': draw(pick('m', 'Hurunui hapua', 'a "b" c')),
                'start': draw(st.integers(0, 10 ** 9)), 'ph': draw(fl(0.0, 1.0)), 'omit': draw(st.booleans()), 'oname': draw(pick('o.nc', 'a b.nc', 'res'))}
    return s()


def check(c):
    import netCDF4
    import pandas as pd
    from hapuamod import out
    if c['ans'] is not None and c['ans'] not in YES and c['ans'].strip().lower()[:1] == 'y':
        raise Discard()
    g = c['g']
    start = pd.Timestamp('1995-01-01') + pd.Timedelta(seconds=c['start'])
    x = g['dx'] * (np.arange(g['n']) + g['k0'])
    ph = {k: v * (1 + c['ph']) for k, v in ol.physical().items()}
    asked = []

    def reply(prompt=''):
        asked.append(str(prompt))
        if c['ans'] is None:
            raise EOFError('EOF when reading a line')
        return c['ans']

    flag = [] if c['omit'] and not c['flag'] else [c['flag']]    # default: not requested

    def make(path):
        if c['file'] == 'out':
            out.newOutFile(path, c['name'], start, x, g['dx'], np.zeros(g['nr']), np.array(c['org']), c['nd'], ph, *flag)
        else:
            out.newTsOutFile(path, c['name'], start, *flag)
    with cl.folder('o02') as d:
        p = os.path.join(d, c['oname'])
        other = os.path.join(d, 'other.txt')
        open(other, 'w').write('keep me')
        if c['exists'] in ('bytes', 'empty'):
            with open(p, 'wb') as f:
                f.write(bytes(c['content']) if c['exists'] == 'bytes' else b'')
        elif c['exists'] == 'results':
            ol.create(p, g, start, overwrite=True, name='old')
            s = {'closed': False, 'lo': 0, 'hi': 1, 'ltor': True, 'inline': False, 'off': 0.5, 'relic': False, 'v': [1.0] * (g['n'] * 12 + g['nr'] * 4 + 14),
                 'sea': 0.0, 'flow': 1.0, 'hs': 1.0, 'edir': 0.0, 'oew': 5.0, 'lag': [1] * g['n'], 'ow': [0.0] * g['n'], 'tr': [0.1] * (g['n'] * 4 + g['nr'] + 2)}
            ol.put(p, start, ol.build(g, s))
        old = open(p, 'rb').read() if c['exists'] != 'no' else None
        real = builtins.input
        builtins.input = reply
        try:
            accept = c['exists'] == 'no' or c['flag'] or c['ans'] in YES
            if accept:
                with sut('creating results file (answer %r, flag %s, existing %s)' % (c['ans'], c['flag'], c['exists'])):
                    make(p)
            else:
                try:
                    with sut('creating results file', allow=(Exception,)):
                        make(p)
                except Violation:
                    raise
                except Exception:
                    pass
                else:
                    raise Violation('existing file replaced after answer %r' % (c['ans'],))
        finally:
            builtins.input = real
        need(open(other).read() == 'keep me' and sorted(os.listdir(d)) == sorted({'other.txt'} | ({c['oname']} if os.path.exists(p) else set())),
             'other files affected: %s', os.listdir(d))
        if not accept:
            need(os.path.exists(p) and open(p, 'rb').read() == old, 'file changed although overwriting was refused (answer %r)', c['ans'])
            need(len(asked) == 1, 'asked %d times', len(asked))
        else:
            need(bool(asked) == (c['exists'] != 'no' and not c['flag']), 'confirmation asked %d times (existing: %s, overwrite flag: %s)',
                 len(asked), c['exists'], c['flag'])
            with netCDF4.Dataset(p) as nc:
                need(nc.variables['time'].size == 0, 'new results file already holds %d times', nc.variables['time'].size)
                need(nc.ModelName == c['name'], 'model name recorded as %r', nc.ModelName)
                if c['file'] == 'out':
                    close([nc.ModelOriginX, nc.ModelOriginY], c['org'], 'recorded origin', 1e-12, 0)
                    close((np.deg2rad(nc.ModelOrientation) - c['nd'] + np.pi) % (2 * np.pi), np.pi, 'recorded orientation', 0, 1e-9)
                    n = 0
                    for k in nc.ncattrs():
                        if k in ph:
                            n += 1
                            close(getattr(nc, k), ph[k], 'recorded parameter ' + k, 1e-12, 0)
                    need(n >= 28, 'only %d physical parameters recorded', n)
                    ol.single(nc.variables['transect_x'][:], x, 'transect_x')
        if asked:
            need(c['oname'] in asked[0], 'confirmation does not name the file: %r', asked[0])
    return {'nontrivial': c['exists'] != 'no' and not c['flag'], 'classes': [c['file'], 'replaced' if accept and c['exists'] != 'no' else 'refused' if not accept else 'new']}
