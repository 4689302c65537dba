"""R04 robustness of the unsteady hydraulics: fallback, singular matrices, hostile states."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from core import *
import hydlib

ID = 'R04'
RULE = ('hydraulic histories with zero/negative initial depths, zero velocities, abrupt inflow and level changes, small '
        'iteration limits and injected solver faults (singular matrix at the k-th solve, no convergence from the k-th '
        'solve on); non-trivial = a step fell back to the steady solution, a fault fired or hostile initial values')
N = {'quick': 1600, 'thorough': 60000}


def strategy(tier):
    base = hydlib.strategy()

    @st.composite
    def s(draw):
        c = dict(draw(base))
        n, K = len(c['z']), len(c['Q'])
        c['Q'] = [max(0.05, abs(q)) for q in c['Q']]
        c['maxit'] = draw(pick(60, 20, 12, 8, 6, 5))
        c['tol'] = draw(pick(1e-8, 1e-6, 1e-4, 1e-3))
        hostile = draw(st.integers(0, 3))
        if hostile == 1:
            k = draw(ints(n, 5))
            c['h'] = [0.0 if k[i] == 5 else -0.3 if k[i] == 4 else c['h'][i] for i in range(n)]
            c['V'] = [0.0 if k[(i + 1) % n] >= 3 else c['V'][i] for i in range(n)]
        elif hostile == 2:
            c['Q'] = [q * f for q, f in zip(c['Q'], draw(st.lists(pick(1.0, 0.02, 8.0, 40.0), min_size=K, max_size=K)))]
        elif hostile == 3:
            c['ds'] = [d + f for d, f in zip(c['ds'], draw(st.lists(pick(0.0, -1.0, -3.0, 2.0, 5.0), min_size=K, max_size=K)))]
        c['hostile'] = hostile
        c['fault'] = draw(pick('none', 'none', 'singular', 'stuck', 'dead'))
        c['at'] = draw(st.integers(0, 25))
        return c
    return s()


class Faulty:
    """Stand-in for the banded solver that fails from / at the chosen call."""

    def __init__(self, kind, at):
        self.kind, self.at, self.n, self.fired = kind, at, 0, False
        self.real = scipy.linalg.solve_banded

    def __call__(self, l_and_u, ab, b, *a, **k):
        i = self.n
        self.n += 1
        if (self.kind == 'singular' and i == self.at) or (self.kind == 'dead' and i >= self.at):
            self.fired = True
            raise scipy.linalg.LinAlgError('singular matrix')
        if self.kind == 'stuck' and i >= self.at:
            self.fired = True
            return np.full(np.shape(b), 0.01 if i % 2 else -0.01)
        return self.real(l_and_u, ab, b, *a, **k)

    def __enter__(self):
        scipy.linalg.solve_banded = self
        return self

    def __exit__(self, *a):
        scipy.linalg.solve_banded = self.real


def steady_or_discard(c, k):
    try:
        with np.errstate(all='ignore'):
            return hydlib.steady(c, k)
    except AssertionError:
        raise Discard    # the iteration limit is too small for the steady solution as well


def run(c, k, **kw):
    try:
        return hydlib.run(c, k, allow=(AssertionError,), **kw)
    except AssertionError as e:
        for j in range(len(c['Q'])):
            steady_or_discard(c, j)
        raise Violation('unsteady hydraulics raised AssertionError: %s' % e)


def check(c):
    K = len(c['Q'])
    kind = c['fault']
    states, fired = [], []
    for k in range(K):
        if kind == 'none':
            states.append(run(c, k + 1))
            fired.append(False)
        else:
            with Faulty(kind, c['at']) as f:
                states.append(run(c, k + 1))
            fired.append(f.fired)
    cl, fell = [], 0
    h0 = np.array(c['h'], float)
    V0 = np.array(c['V'], float)
    h0 = np.where(h0 <= 0, 1e-4, h0)
    V0 = np.where(V0 == 0, min(1e-4, c['tol'] / 10), V0)
    dsold = c['ds'][0] if c['closed'] else c['z'][-1] + h0[-1]
    clean = True
    for k in range(K):
        h, V = states[k]
        finite(h, 'depth')
        finite(V, 'velocity')
        need(np.all(h > 0), 'non-positive depth %.6g', float(np.min(h)))
        sh, sv = steady_or_discard(c, k)
        is_steady = np.allclose(h, sh, rtol=1e-10, atol=1e-12) and np.allclose(V, sv, rtol=1e-10, atol=1e-12)
        sc = hydlib.Scheme(c, k, h0, V0, dsold)
        if not is_steady:
            need(not (kind in ('stuck', 'dead') and fired[k]), 'no convergence at step %d but the result is not the steady solution', k)
            if np.min(h) >= 0.02 and np.min(h0) >= 0.02:
                R, S = sc.residuals(h, V)
                slack = 1e-7 * S + 1e-6 + 3 * c['tol'] * np.abs(sc.jac(h, V)).sum(axis=1)
                bad = np.where(np.abs(R) > slack)[0]
                if bad.size:
                    need(not sc.benign() and c['tol'] > 1e-5,
                         'state after step %d is neither a solution (equation %d off by %.4g) nor the steady fallback',
                         k, int(bad[0]), float(R[bad[0]]))
        else:
            R, S = sc.residuals(h, V)
            if np.any(np.abs(R) > 1e-6 * S + 1e-6):
                fell += 1
                if not (kind in ('stuck', 'dead') and fired[k]) and c['maxit'] >= 20:
                    need(not sc.benign(), 'step %d fell back to the steady solution although the iteration converges', k)
        h0, V0, dsold = h, V, c['ds'][k]
    # carrying on: the remaining steps continue from the state reached
    if kind == 'none' and K > 1 and (c['P'] == 0 or not any(c['len'])):
        for k in range(1, K):
            h, V = run(c, K - k, h=states[k - 1][0], V=states[k - 1][1], start=k)
            close(h, states[-1][0], 'depth when resumed after step %d' % k, 1e-9, 1e-9)
            close(V, states[-1][1], 'velocity when resumed after step %d' % k, 1e-9, 1e-9)
    if fell:
        cl.append('fallback')
        if fell < K:
            cl.append('fallback-then-converged-or-before')
    if any(fired):
        cl.append('fault-' + kind)
    if c['hostile']:
        cl.append('hostile%d' % c['hostile'])
    return {'nontrivial': bool(fell or any(fired) or c['hostile']), 'classes': cl}
