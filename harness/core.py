"""Shared machinery: violations, hypothesis helpers, tolerances, SUT guards."""
import contextlib
import json
import logging
import math
import os
import signal
import sys

import numpy as np
from hypothesis import strategies as st

REPO = os.environ.get('VERIF_REPO', '/repo')
HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')


class Violation(Exception):
    """The property does not hold for the case under test."""


class Known(Exception):
    """The case shows a listed known finding (identified by `fid`)."""

    def __init__(self, fid, msg):
        super().__init__(msg)
        self.fid = fid
        self.msg = msg


class Discard(Exception):
    """Case outside the property's domain / ambiguous for the oracle (counted)."""


class HarnessError(BaseException):
    """Defect of the harness itself (never reported as a violation)."""


class Hang(BaseException):
    """The code under test did not return."""


HANG_SECONDS = int(os.environ.get('VERIF_HANG', '120'))


def _alarm(_s, _f):
    raise Hang()


@contextlib.contextmanager
def sut(what='call', allow=()):
    """Run code under test: any exception that is not allowed is a violation."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_SECONDS)
    try:
        with np.errstate(all='ignore'):
            yield
    except (Violation, Known, Discard):
        raise
    except allow:
        raise
    except Exception as e:  # noqa: BLE001 - everything the code raises on valid input
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/hapuamod/' in f.filename]
        loc = ('%s:%d' % (os.path.basename(where[-1].filename), where[-1].lineno)) if where else '?'
        raise Violation('%s raised %s: %s (at %s)' % (what, type(e).__name__, str(e)[:300], loc)) from None
    except SystemExit as e:
        raise Violation('%s exited the interpreter (%r)' % (what, e.code)) from None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def arr(x):
    return np.array([np.nan if v is None else v for v in x], dtype=float)


def close(got, want, what, rtol=1e-9, atol=1e-9):
    """Elementwise agreement incl. NaN positions."""
    g = np.asarray(np.ma.filled(got, np.nan) if np.ma.isMaskedArray(got) else got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        if g.size == w.size:
            g = g.reshape(w.shape)
        else:
            raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape))
    gn, wn = np.isnan(g), np.isnan(w)
    if np.any(gn != wn):
        i = tuple(int(k) for k in np.argwhere(gn != wn)[0])
        raise Violation('%s: got %r, expected %r at index %s' % (what, float(g[i]), float(w[i]), i))
    ok = gn | (g == w)
    with np.errstate(all='ignore'):
        ok |= np.abs(g - w) <= atol + rtol * np.abs(w)
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        raise Violation('%s: got %.12g, expected %.12g at index %s' % (what, float(g[i]), float(w[i]), i))


def finite(x, what):
    x = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(x)):
        i = tuple(int(k) for k in np.argwhere(~np.isfinite(x))[0])
        raise Violation('%s is not finite at index %s: %r' % (what, i, float(x[i])))


# ---------------------------------------------------------------- generators
def cached(f):
    """Memoised strategy constructor (validating a strategy costs more than drawing from it)."""
    memo = {}

    def g(*a):
        key = (a, tuple(map(type, a)))
        try:
            if key not in memo:
                memo[key] = f(*a)
            return memo[key]
        except TypeError:
            return f(*a)
    return g


@cached
def fl(lo, hi, steps=1000):
    """Float on a regular grid lo..hi (shrinks towards lo)."""
    d = (hi - lo) / steps
    return st.integers(0, steps).map(lambda k: float(lo + d * k))


@cached
def ints(n, top):
    """n independent integers 0..top from one packed draw (fast; shrinks towards 0)."""
    if n <= 0:
        return st.just([])
    m = top + 1
    if top < 256:
        return st.binary(min_size=n, max_size=n).map(lambda b: [v % m for v in b])
    return st.binary(min_size=2 * n, max_size=2 * n).map(
        lambda b: [(256 * b[2 * i] + b[2 * i + 1]) % m for i in range(n)])


@cached
def fls(lo, hi, n, steps=1000):
    d = (hi - lo) / steps
    return ints(n, steps).map(lambda ks: [float(lo + d * k) for k in ks])


@cached
def sfl(hi, steps=1000):
    """Symmetric float -hi..hi (shrinks towards 0)."""
    d = hi / steps
    return st.integers(-steps, steps).map(lambda k: float(d * k))


@cached
def sfls(hi, n, steps=1000):
    d = hi / steps
    return ints(n, 2 * steps).map(lambda ks: [float(d * ((k + 1) // 2) * (1 if k % 2 else -1)) + 0.0 for k in ks])


@cached
def logf(lo, hi, steps=400):
    a, b = math.log(lo), math.log(hi)
    return st.integers(0, steps).map(lambda k: float(math.exp(a + (b - a) * k / steps)))


@cached
def pick(*xs):
    return st.sampled_from(list(xs))


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.floating,)):
        return jsonable(float(o))
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, float) and not math.isfinite(o):
        return None if math.isnan(o) else ('inf' if o > 0 else '-inf')
    return o


_counter = [0]


def scratch(tag='t'):
    """A fresh scratch directory private to this process."""
    _counter[0] += 1
    d = os.path.join(SCRATCH, '%s-%d-%d' % (tag, os.getpid(), _counter[0]))
    os.makedirs(d)
    return d


def quiet_logging():
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    logging.getLogger().setLevel(logging.CRITICAL)
