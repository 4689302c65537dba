"""Runner: generated-input search for one property, sharded over processes.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--shards N] [--scale F]
exit 0 = held on everything explored, 1 = VIOLATION line printed, 2 = harness error
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HOME = os.environ.get('VERIF_HOME', os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
for extra in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if os.path.isdir(extra):
        sys.path.append(extra)  # hypothesis; at the END so numpy/pandas stay the repo's own

import warnings
warnings.simplefilter('ignore')
import hypothesis
import hypothesis.internal.conjecture.engine as _engine
from hypothesis import HealthCheck, Phase, Verbosity, given, settings

import core as hc
from core import Discard, Hang, HarnessError, Known, Violation

N_SHARDS = 8


def load_known():
    """known_findings.txt -> {(property, id): text}"""
    known = {}
    path = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                parts = line.split(None, 3)
                prop = parts[1].split('=', 1)[1]
                fid = parts[2].split('=', 1)[1]
                known[(prop, fid)] = parts[3] if len(parts) > 3 else ''
    return known


class Stats:
    def __init__(self):
        self.evals = 0
        self.discards = 0
        self.nontrivial = set()
        self.samples = []
        self.classes = {}
        self.known = {}

    def pack(self):
        return dict(self.__dict__, nontrivial=list(self.nontrivial))


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def evaluate(mod, case, stats, count=True):
    """Run the check on one case.  Raises Violation / Hang / HarnessError."""
    hc.quiet_logging()
    try:
        info = mod.check(case) or {}
    except Discard:
        if count:
            stats.evals += 1
            stats.discards += 1
        return
    except Known as k:
        if (mod.ID, k.fid) not in KNOWN:
            raise Violation('%s (unlisted finding %s)' % (k.msg, k.fid)) from None
        if count:
            stats.evals += 1
            stats.known[k.fid] = stats.known.get(k.fid, 0) + 1
        return
    except (Violation, Hang, HarnessError):
        if count:
            stats.evals += 1
        raise
    except KeyboardInterrupt:
        raise
    except (ImportError, MemoryError):
        raise HarnessError(traceback.format_exc() + '\ncase: ' + json.dumps(case)[:2000]) from None
    except Exception as e:  # noqa: BLE001
        # the oracles accept everything the unchanged code gives, so what came back has another form (shape, type, missing item)
        if count:
            stats.evals += 1
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('result of unexpected form: %s: %s (judged at %s:%d)' % (
            type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)) from None
    if not count:
        return
    stats.evals += 1
    for c in info.get('classes', ()):
        stats.classes[c] = stats.classes.get(c, 0) + 1
    for fid in info.get('known', ()):
        if (mod.ID, fid) not in KNOWN:
            raise Violation('unlisted finding %s' % fid)
        stats.known[fid] = stats.known.get(fid, 0) + 1
    if info.get('nontrivial', True):
        d = digest(case)
        if d not in stats.nontrivial:
            stats.nontrivial.add(d)
            if len(stats.samples) < 2:
                stats.samples.append(case)


def run_shard(mod, tier, seed, shard, n, conn):
    stats = Stats()
    out = {'shard': shard, 'status': 'ok'}
    state = {}
    try:
        if shard == 0:
            for case in getattr(mod, 'CASES', lambda: [])():
                case = hc.jsonable(case)
                try:
                    evaluate(mod, case, stats)
                except Violation as v:
                    state.update(case=case, msg=str(v))
                    raise
                except Hang:
                    state.update(case=case, msg='no result within %d s' % hc.HANG_SECONDS)
                    raise
        sseed = int(hashlib.sha256(('%s|%d|%d|%s' % (mod.ID, seed, shard, tier)).encode()).hexdigest()[:15], 16)

        @hypothesis.seed(sseed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                  print_blob=False)
        @given(mod.strategy(tier))
        def test(case):
            case = hc.jsonable(case)
            try:
                evaluate(mod, case, stats, count='case' not in state)
            except Violation as v:
                state.update(case=case, msg=str(v))
                raise
            except Hang:
                state.update(case=case, msg='no result within %d s' % hc.HANG_SECONDS)
                raise

        if n > 0:
            test()
    except Violation:
        out['status'] = 'violation'
    except Hang:
        out['status'] = 'violation'
    except HarnessError as e:
        out['status'] = 'error'
        out['error'] = str(e)
    except BaseException as e:  # noqa: BLE001
        if 'case' in state and type(e).__name__ in ('Flaky', 'FlakyFailure', 'FlakyReplay'):
            # the recorded case did fail when it was run: report it, runner re-confirms below
            out['status'] = 'violation'
        else:
            out['status'] = 'error'
            out['error'] = traceback.format_exc()
    out.update(state)
    out['stats'] = stats.pack()
    conn.send(out)
    conn.close()
    os._exit(0)


def main():
    global KNOWN
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--procs', type=int, default=0)
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    KNOWN = load_known()
    t0 = time.time()
    try:
        mod = importlib.import_module('props.' + args.property.lower())
    except Exception:
        traceback.print_exc()
        return 2
    assert mod.ID == args.property
    _engine.MAX_SHRINKING_SECONDS = getattr(mod, 'SHRINK_SECONDS', 60)

    if args.replay:
        doc = json.load(open(args.replay))
        stats = Stats()
        try:
            evaluate(mod, doc['case'], stats)
        except Violation as v:
            print('reproduced: %s' % v)
            print('VIOLATION property=%s replay=%s' % (mod.ID, os.path.abspath(args.replay)))
            return 1
        except Hang:
            print('reproduced: no result within %d s' % hc.HANG_SECONDS)
            print('VIOLATION property=%s replay=%s' % (mod.ID, os.path.abspath(args.replay)))
            return 1
        except HarnessError as e:
            print(e, file=sys.stderr)
            return 2
        print('replay: property held (known findings seen: %s)' % (sorted(stats.known) or 'none'))
        return 0

    n_total = int(mod.N[tier] * args.scale)
    per = [(n_total + i) // N_SHARDS for i in range(N_SHARDS)]
    ctx = mp.get_context('fork')
    procs = args.procs or max(1, min(N_SHARDS, os.cpu_count() or 1))
    pending = list(range(N_SHARDS))
    running = {}
    results = []
    stop = False
    while (pending and not stop) or running:
        while pending and not stop and len(running) < procs:
            s = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=run_shard, args=(mod, tier, seed, s, per[s], w))
            p.start()
            w.close()
            running[s] = (p, r)
        ready = mp.connection.wait([r for (_, r) in running.values()], timeout=1.0)
        for s, (p, r) in list(running.items()):
            if r in ready:
                try:
                    results.append(r.recv())
                except EOFError:
                    results.append({'shard': s, 'status': 'error', 'error': 'worker died',
                                    'stats': Stats().pack()})
                p.join()
                r.close()
                del running[s]
                if results[-1]['status'] == 'violation':
                    stop = True
        if stop:
            for s, (p, r) in list(running.items()):
                p.terminate()
                p.join()
                r.close()
                del running[s]

    results.sort(key=lambda r: r['shard'])
    nontrivial, samples, classes, known = set(), [], {}, {}
    evals = discards = 0
    for r in results:
        s = r['stats']
        evals += s['evals']
        discards += s['discards']
        nontrivial.update(s['nontrivial'])
        if len(samples) < 3:
            samples += s['samples'][:1]
        for k, v in s['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in s['known'].items():
            known[k] = known.get(k, 0) + v
    viol = [r for r in results if r['status'] == 'violation']
    errs = [r for r in results if r['status'] == 'error']
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nontrivial),
                       'rule': mod.RULE, 'discarded_out_of_domain': discards,
                       'classes': dict(sorted(classes.items())),
                       'known_findings_seen': dict(sorted(known.items())),
                       'samples': [json.loads(json.dumps(s)) if len(json.dumps(s)) < 6000
                                   else json.dumps(s)[:6000] for s in samples[:2]]},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
    with open(os.path.join(HOME, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs'
          % (mod.ID, tier, seed, evals, len(nontrivial), discards, time.time() - t0))
    if classes:
        print('  classes: ' + ', '.join('%s=%d' % kv for kv in sorted(classes.items())))
    for (prop, fid), text in sorted(KNOWN.items()):
        if prop == mod.ID and fid in known:
            print('KNOWN-FINDING: property=%s %s (%s; %d cases)' % (prop, text, fid, known[fid]))
    if viol:
        r = min(viol, key=lambda r: len(json.dumps(r['case'])))
        rdir = os.path.join(HOME, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (mod.ID, seed))
        with open(path, 'w') as f:
            json.dump({'property': mod.ID, 'message': r['msg'], 'case': r['case']}, f)
        print('violation: ' + r['msg'])
        print('  case: ' + json.dumps(r['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    if errs:
        for r in errs[:2]:
            print(r['error'], file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
