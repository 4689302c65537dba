"""E03 command line."""
import os
import re
import subprocess
import sys
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import simlib

ID = 'E03'
RULE = ('python -m hapuamod in a subprocess on short simulations: long and short option names in any combination and order, configuration in the '
        'working folder or elsewhere, existing outputs with every kind of answer typed, missing and invalid configurations; '
        'non-trivial = existing outputs, a bad configuration or a logging option')
N = {'quick': 60, 'thorough': 700}
SHRINK_SECONDS = 40
ASSUMPTIONS = ['with both --quiet and --verbose only the absence of a failure is required']
BAD = ['missing', 'folder', 'empty', 'garbage', 'unknown', 'range', 'type', 'flowfile', 'short']


def strategy(tier):
    @st.composite
    def s(draw):
        c = {'sim': draw(simlib.strategy('quick'))}
        c['sim']['dur'] = min(c['sim']['dur'], 2)
        c['q'], c['v'] = draw(pick((False, False), (True, False), (False, True), (False, True), (True, False), (True, True)))
        c['o'] = draw(pick(False, True, False))
        c['long'] = draw(st.booleans())
        c['last'] = draw(st.booleans())
        c['exists'] = draw(pick('none', 'out', 'ts', 'both', 'both'))
        c['junk'] = draw(st.booleans())
        c['ans'] = draw(pick('y', 'Yes', 'n', 'no', '', None, 'x', 'yn', 'ny'))
        c['bad'] = draw(pick(*[None] * 30, *BAD))
        c['api'] = draw(pick(0, 0, 1))
        c['sub'] = draw(pick(None, 'sub', 'a b'))
        c['cname'] = draw(pick('model.cnf', 'my run.cnf', 'v1.2.cnf', 'plain'))
        return c
    return s()


def run_cli(d, args, answer, module='hapuamod'):
    env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
    try:
        r = subprocess.run([sys.executable, '-m', module] + args, cwd=d, env=env, input=answer, capture_output=True, text=True, errors='replace', timeout=HANG_SECONDS)
    except subprocess.TimeoutExpired:
        raise Violation('the program did not end') from None
    return r.returncode, r.stdout, r.stderr


def levels(text):
    return re.findall(r'^(DEBUG|INFO|WARNING|ERROR|CRITICAL) *:', text, re.M)


def declined(d, p, f):
    """Called from Python without asking for it, existing results are kept as well unless the user agrees."""
    import builtins
    from unittest import mock
    from hapuamod import core
    with open(f, 'wb') as h:
        h.write(b'precious')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with mock.patch.object(builtins, 'input', lambda *a: 'n'):
            core.main(p)
    except (Exception, SystemExit):  # noqa: BLE001
        pass
    else:
        raise Violation('main ran although overwriting %s was declined' % os.path.basename(f))
    finally:
        os.chdir(cwd)
    need(open(f, 'rb').read() == b'precious', 'main without the overwrite option changed %s', os.path.basename(f))
    for g in os.listdir(d):
        if g.endswith('.nc') and g != 'hot.nc':
            os.remove(os.path.join(d, g))


def check(c):
    sim = c['sim']
    with cl.folder('e03') as d:
        home = os.path.join(d, c['sub']) if c['sub'] else d
        os.makedirs(home, exist_ok=True)
        p = os.path.join(home, c['cname'])
        os.rename(simlib.setup(home, sim), p)
        f1, f2 = simlib.outputs(sim)
        root = os.path.splitext(c['cname'])[0]
        if not sim['named']:
            f1, f2 = root + '_outputs.nc', root + '_TSoutputs.nc'
        f1, f2 = os.path.join(d, f1), os.path.join(d, f2)
        # reference: the same model run directly
        cwd = os.getcwd()
        if c['bad'] is None:
            simlib.run(d, p)
            w1, w2 = simlib.results(f1), simlib.results(f2)
            os.rename(f1, f1 + '.ref')
            os.rename(f2, f2 + '.ref')
            if c['api']:
                declined(d, p, f1 if c['o'] else f2)
        spoil(c, p, home)
        old = {}
        for f, k in ((f1, 'out'), (f2, 'ts')):
            if c['exists'] in (k, 'both'):
                if c['junk'] or c['bad']:
                    with open(f, 'wb') as h:
                        h.write(b'precious' * 50)
                else:
                    os.link(f + '.ref', f)
                old[f] = (os.stat(f).st_ino, open(f, 'rb').read())
        opts = []
        for on, a, b in ((c['o'], '-o', '--Overwrite'), (c['q'], '-q', '--quiet'), (c['v'], '-v', '--verbose')):
            if on:
                opts.append(b if c['long'] else a)
        path = os.path.relpath(p, d) if sim['cont'] else p
        args = opts + [path] if c['last'] else [path] + opts
        asks = 0 if c['o'] else len(old)
        ans = None if c['ans'] is None else [{'y': 'y', 'n': 'n'}[k] for k in c['ans']] if c['ans'] in ('yn', 'ny') else [c['ans']] * 2
        rc, so, se = run_cli(d, args, '' if ans is None else ''.join(a + '\n' for a in ans))
        yes = [a in ('y', 'Yes') for a in ans or ()]
        ok = c['bad'] is None and all((yes + [False] * 2)[:asks])
        what = 'run with %s, existing %s, answer %r, configuration %s' % (opts, c['exists'], c['ans'], c['bad'] or 'valid')
        need((rc == 0) == ok, '%s: exit status %d; %s', what, rc, se[-300:])
        consented = list(old) if c['o'] else [f for f, y in zip(sorted(old, key=lambda f: f == f2), yes) if y]
        for f, (ino, data) in old.items():
            if f not in consented or c['bad']:
                need(os.path.exists(f) and open(f, 'rb').read() == data, '%s: existing file %s was changed', what, os.path.basename(f))
        if c['bad']:
            for f in (f1, f2):
                need(os.path.exists(f) == (f in old), '%s: an output file appeared or vanished', what)
        # log file
        log = os.path.join(d, root + '_log.txt')
        need(os.path.exists(log), '%s: no log file %s; folder has %s', what, os.path.basename(log), sorted(os.listdir(d)))
        with open(log, errors='replace') as h:
            lt = h.read()
        lv = levels(lt)
        if not (c['q'] and c['v']):
            if c['q']:
                need(not set(lv) & {'INFO', 'DEBUG'}, '%s: quiet log has %s', what, lt[:200])
                need(not re.search(r'Time = ', se + so), '%s: quiet console shows progress', what)
            else:
                need(('INFO' in lv) or c['bad'], '%s: log has no information messages', what)
                if ok:
                    need(re.search(r'Time = ', se + so) or sim['logint'] >= 60 * sim['dur'], '%s: console shows no progress: %s', what, se[-300:])
            if not c['v']:
                need('DEBUG' not in lv, '%s: log has debugging detail', what)
            elif ok and sim['shot']:
                need('DEBUG' in lv, '%s: verbose log has no debugging detail', what)
        if ok:
            for f, (v, t), nm in ((f1, w1, 'results'), (f2, w2, 'time series')):
                need(os.path.exists(f), '%s: no %s written', what, nm)
                gv, gt = simlib.results(f)
                need(gt == t, '%s: %s at %d times, expected %d', what, nm, len(gt), len(t))
                for k in v:
                    need(k in gv and np.array_equal(gv[k], v[k], equal_nan=v[k].dtype.kind == 'f'), '%s: %s differ in %s', what, nm, k)
    return {'nontrivial': bool(c['exists'] != 'none' or c['bad'] or c['q'] or c['v']),
            'classes': ['bad-' + c['bad'] if c['bad'] else 'refused' if not ok else 'ran', 'exists-' + c['exists'],
                        'quiet' if c['q'] else 'verbose' if c['v'] else 'plain', 'overwrite' if c['o'] else 'ask']}


def spoil(c, p, home):
    """Make the configuration unusable in the chosen way."""
    b = c['bad']
    if b is None:
        return
    if b in ('missing', 'folder'):
        os.remove(p)
        if b == 'folder':
            os.makedirs(p)
        return
    with open(p, newline='') as f:
        t = f.read()
    if b == 'empty':
        t = ''
    elif b == 'garbage':
        t = '[[[ not a configuration\n= = =\n' + t
    elif b == 'unknown':
        t = re.sub(r'(?m)^(\W*)StartTime', r'\1StrtTime', t)
    elif b == 'range':
        t = re.sub(r'(?m)^(\s*MaxMorChange\s*=\s*).*$', r'\1-3.0', t)
    elif b == 'type':
        t = re.sub(r'(?m)^(\s*MorDtMin\s*=\s*).*$', r'\1soon', t)
    elif b == 'flowfile':
        t = re.sub(r'(?m)^(\s*WaveConditions\s*=\s*).*$', r'\1absent.csv', t)
    elif b == 'short':
        t = re.sub(r"(?m)^(\s*EndTime\s*=\s*).*$", r"\1'2004-04-01 00:00'", t)
    with open(p, 'w', newline='') as f:
        f.write(t)
