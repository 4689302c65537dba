"""Generation and oracles for the unsteady hydraulics (Preissmann scheme)."""
import numpy as np
from hypothesis import strategies as st
from core import *


def strategy(profile='any'):
    @st.composite
    def s(draw):
        n = draw(st.integers(3, 10))
        dx0 = draw(pick(20.0, 5.0, 50.0))
        even = draw(st.booleans())
        dx = [dx0] * (n - 1) if even else [dx0 * v for v in draw(fls(0.5, 2.0, n - 1, 300))]
        slope = draw(pick(0.001, 0.0, 0.004, -0.001))
        zj = draw(pick(0.0, 0.05, 0.3))
        off = draw(sfls(zj, n, 499)) if zj else [0.0] * n
        z0 = draw(sfl(1.5, 150))
        x = [0.0]
        for d in dx:
            x.append(x[-1] + d)
        z = [z0 + slope * (x[-1] - x[i]) + off[i] for i in range(n)]
        W0 = draw(pick(50.0, 10.0, 100.0))
        W = [W0 * v for v in draw(fls(0.6, 1.6, n, 500))] if draw(st.booleans()) else [W0] * n
        store = draw(st.integers(0, 2))
        area, length = [0.0] * n, [0.0] * n
        if store:
            a = draw(ints(n, 3))
            big = draw(pick(500.0, 5000.0, 100000.0))
            av = draw(fls(0.0, big, n, 499))
            lv = draw(fls(0.0, 3 * dx0, n, 499))
            for i in range(n):
                if a[i] >= 2:
                    area[i] = av[i]
                if a[i] >= 1:
                    length[i] = lv[i]
        K = draw(st.integers(1, 5))
        closed = draw(st.integers(0, 3)) == 0
        lev0 = max(z) + draw(fl(0.6, 3.0, 240))
        kind = draw(pick('still', 'flow', 'rough'))
        q0 = draw(pick(1.0, 0.3, 3.0)) * W0 * 0.3
        if kind == 'still':
            h = [lev0 - v for v in z]
            V = [0.0 if draw(st.booleans()) else 0.05] * n
        elif kind == 'flow':
            tilt = draw(fl(0.0, 0.002, 100))
            h = [lev0 + tilt * (x[-1] - x[i]) - z[i] for i in range(n)]
            sgn = 1 if draw(st.integers(0, 4)) else -1
            V = [sgn * q0 / (W[i] * h[i]) for i in range(n)]
        else:
            e = draw(sfls(0.15, n, 499))
            f = draw(sfls(0.8, n, 499))
            h = [lev0 - z[i] + e[i] for i in range(n)]
            V = list(f)
        amp = draw(pick(0.05, 0.3, 0.0))
        ds = [lev0 + amp * v for v in draw(sfls(1.0, K, 499))]
        qa = draw(pick(0.2, 1.0, 0.0))
        Q = [q0 * (1 + qa * v) for v in draw(sfls(1.0, K, 499))]
        if draw(st.integers(0, 7)) == 0:
            Q = [-abs(v) * 0.5 for v in Q]   # reverse flow through the whole reach
        return {'z': z, 'B': W, 'area': area, 'len': length, 'dx': dx, 'closed': closed, 'h': h, 'V': V,
                'Q': Q, 'ds': ds, 'dt': draw(pick(5.0, 1.0, 15.0, 60.0, 2.5)),
                'theta': draw(pick(0.6, 0.5, 0.7, 1.0, 0.55)), 'beta': draw(pick(1.0, 1.05, 1.2)),
                'n': draw(pick(0.04, 0.02, 0.08)), 'P': draw(pick(0.001, 0.0, 0.01, 0.1)) if store else 0.0,
                'g': draw(pick(9.81, 9.81, 9.8, 10.0)), 'tol': 1e-8, 'maxit': 60}
    return s()


def arrays(c):
    return {k: np.array(c[k], float) for k in ('z', 'B', 'area', 'len', 'dx', 'h', 'V', 'Q', 'ds')}


def run(c, k, h=None, V=None, start=0, what='unsteady hydraulics', allow=()):
    """Run steps start..start+k of the code under test; returns depths and velocities."""
    import pandas as pd
    from hapuamod import riv
    a = arrays(c)
    if h is not None:
        a['h'], a['V'] = h.copy(), V.copy()
    a['Q'] = a['Q'][start:start + k]
    a['ds'] = a['ds'][start:start + k]
    keep = {q: v.copy() for q, v in a.items()}
    num = {'Theta': c['theta'], 'Beta': c['beta'], 'ErrTol': c['tol'], 'MaxIt': c['maxit'], 'WarnTol': 1e9}
    phy = {'Gravity': c['g'], 'RoughnessManning': c['n'], 'BarrierPermeability': c['P']}
    kn, kp = dict(num), dict(phy)
    with sut(what, allow):
        riv.solveFullPreissmann(a['z'], a['B'], a['area'], a['len'], c['closed'], a['h'], a['V'], a['dx'],
                                pd.Timedelta(seconds=c['dt']), a['Q'], a['ds'], num, phy)
    for q in ('z', 'B', 'area', 'len', 'dx', 'Q', 'ds'):
        need(np.array_equal(a[q], keep[q]), 'unsteady hydraulics modified its input "%s"', q)
    need(num == kn and phy == kp, 'unsteady hydraulics modified the parameters')
    return a['h'], a['V']


class Scheme:
    """Residuals of the discretised equations, written reach by reach with explicit scales."""

    def __init__(self, c, step, h0, V0, dsold):
        self.c = c
        a = arrays(c)
        self.z, self.B, self.dx = a['z'], a['B'], a['dx']
        n = self.z.size
        half = np.zeros(n)
        for i in range(n - 1):
            half[i] += self.dx[i] / 2
            half[i + 1] += self.dx[i] / 2
        self.Be = self.B + a['area'] / half
        self.L = (a['len'][:-1] + a['len'][1:]) / 2     # length of permeable barrier along each reach
        self.h0, self.V0, self.dsold = h0, V0, dsold
        self.Q, self.ds = a['Q'][step], a['ds'][step]

    def fric(self, h, V):
        return V * abs(V) * self.c['n'] ** 2 / h ** (4 / 3)

    def residuals(self, h, V):
        c = self.c
        th, dt, g, beta, P = c['theta'], c['dt'], c['g'], c['beta'], c['P']
        z, B, Be, dx = self.z, self.B, self.Be, self.dx
        n = z.size
        A, A0 = B * h, B * self.h0
        R, S = np.zeros(2 * n), np.zeros(2 * n)
        R[0] = A[0] * V[0] - self.Q
        S[0] = abs(A[0] * V[0]) + abs(self.Q)
        q, q0 = A * V, A0 * self.V0
        f, f0 = self.fric(h, V), self.fric(self.h0, self.V0)
        m, m0 = A * V ** 2, A0 * self.V0 ** 2
        for i in range(n - 1):
            # storage change [m3 per reach]
            j = i + 1
            ds_ = 0.5 * dx[i] * (Be[i] * (h[i] - self.h0[i]) + Be[j] * (h[j] - self.h0[j]))
            out = dt * (th * (q[j] - q[i]) + (1 - th) * (q0[j] - q0[i]))
            head = (z[i] + h[i] + z[j] + h[j]) / 2 - self.ds
            head0 = (z[i] + self.h0[i] + z[j] + self.h0[j]) / 2 - self.dsold
            seep = dt * P * self.L[i] * (th * head + (1 - th) * head0)
            R[2 * i + 1] = ds_ + out + seep
            S[2 * i + 1] = (0.5 * dx[i] * (Be[i] * (h[i] + self.h0[i]) + Be[j] * (h[j] + self.h0[j])) +
                            dt * (abs(q[i]) + abs(q[j]) + abs(q0[i]) + abs(q0[j])) +
                            dt * P * self.L[i] * (abs(z[i]) + abs(z[j]) + h[i] + h[j] + abs(self.ds) + abs(self.dsold)))
            s0 = (z[i] - z[j]) / dx[i]
            loc = 0.5 * dx[i] * (q[i] + q[j] - q0[i] - q0[j])
            conv = dt * beta * (th * (m[j] - m[i]) + (1 - th) * (m0[j] - m0[i]))
            pres = dt * g * 0.5 * (th * (A[i] + A[j]) * (h[j] - h[i]) + (1 - th) * (A0[i] + A0[j]) * (self.h0[j] - self.h0[i]))
            grav = dt * g * 0.5 * dx[i] * (th * (A[i] * (s0 - f[i]) + A[j] * (s0 - f[j])) +
                                           (1 - th) * (A0[i] * (s0 - f0[i]) + A0[j] * (s0 - f0[j])))
            R[2 * i + 2] = loc + conv + pres - grav
            S[2 * i + 2] = (0.5 * dx[i] * (abs(q[i]) + abs(q[j]) + abs(q0[i]) + abs(q0[j])) +
                            dt * beta * (abs(m[i]) + abs(m[j]) + abs(m0[i]) + abs(m0[j])) +
                            dt * g * (A[i] + A[j] + A0[i] + A0[j]) * (h[i] + h[j] + self.h0[i] + self.h0[j]) +
                            dt * g * 0.5 * dx[i] * ((A[i] + A[j] + A0[i] + A0[j]) * abs(s0) + A[i] * abs(f[i]) + A[j] * abs(f[j]) +
                                                    A0[i] * abs(f0[i]) + A0[j] * abs(f0[j])))
        if c['closed']:
            R[-1] = h[-1] * V[-1]
            S[-1] = h[-1] * (1 + abs(V[-1]))
        else:
            R[-1] = z[-1] + h[-1] - self.ds
            S[-1] = abs(z[-1]) + h[-1] + abs(self.ds)
        return R, S

    def slack(self, h, V):
        """What an error of the solver tolerance in every velocity amounts to."""
        c, tol = self.c, self.c['tol']
        A = self.B * h
        T = np.zeros(2 * h.size)
        T[0] = tol * A[0]
        a = A[:-1] + A[1:]
        u = np.maximum(abs(V[:-1]), abs(V[1:]))
        hm = np.minimum(h[:-1], h[1:])
        T[1:-1:2] = 2 * tol * c['dt'] * a
        T[2:-1:2] = tol * a * (self.dx + 4 * c['dt'] * (1 + u) + c['dt'] * c['g'] * self.dx * u * c['n'] ** 2 / hm ** (4 / 3))
        T[-1] = tol * h[-1]
        return T

    def jac(self, h, V, e=1e-6):
        n = h.size
        J = np.zeros((2 * n, 2 * n))
        for k in range(2 * n):
            hh, vv, hm, vm = h.copy(), V.copy(), h.copy(), V.copy()
            (hh if k % 2 == 0 else vv)[k // 2] += e
            (hm if k % 2 == 0 else vm)[k // 2] -= e
            J[:, k] = (self.residuals(hh, vv)[0] - self.residuals(hm, vm)[0]) / (2 * e)
        return J

    def benign(self):
        """Does plain Newton iteration from the old state converge quickly to a wet solution?"""
        n = self.z.size
        h, V = self.h0.copy(), self.V0.copy()
        prev = np.inf
        for it in range(9):
            R, S = self.residuals(h, V)
            if not np.all(np.isfinite(R)):
                return False
            J = self.jac(h, V)
            try:
                D = np.linalg.solve(J, R)
            except np.linalg.LinAlgError:
                return False
            h = h - D[0::2]
            V = V - D[1::2]
            m = np.max(np.abs(D))
            if np.any(h < 0.02) or not np.all(np.isfinite(V)) or m > 3.0:
                return False
            if it > 1 and m > 0.5 * prev and m > 1e-6:
                return False
            prev = m
            if m < 1e-7:
                return True
        return False


def steps(c):
    """States after every step (prefix runs) with the oracle of each step."""
    n = len(c['z'])
    h, V = np.array(c['h'], float), np.array(c['V'], float)
    K = len(c['Q'])
    h = np.where(h <= 0, 1e-4, h)
    V = np.where(V == 0, min(1e-4, c['tol'] / 10), V)
    dsold = c['ds'][0] if c['closed'] else c['z'][-1] + h[-1]
    for k in range(K):
        h1, V1 = run(c, k + 1)
        yield k, Scheme(c, k, h, V, dsold), h1, V1
        h, V, dsold = h1, V1, c['ds'][k]


def steady(c, k):
    from hapuamod import riv
    a = arrays(c)
    num = {'Theta': c['theta'], 'Beta': c['beta'], 'ErrTol': c['tol'], 'MaxIt': c['maxit'], 'WarnTol': 1e9}
    return riv.solveSteady(a['dx'], a['z'], a['B'], c['n'], a['Q'][k], a['ds'][k], num)


def judge(c, rows, what):
    """Check the residual rows of every step.  Returns counts."""
    done = skipped = rev = 0
    for k, sc, h, V in steps(c):
        finite(h, 'depth')
        finite(V, 'velocity')
        R, S = sc.residuals(h, V)
        T = sc.slack(h, V)
        bad = [i for i in rows(h.size) if abs(R[i]) > 1e-8 * S[i] + 1e-9 + T[i]]
        if bad:
            if np.min(h) <= 2e-4 or not sc.benign():
                # the scheme did not converge (steady fallback, property R04) or dried out
                skipped += 1
                break
            i = bad[0]
            need(False, '%s violated at step %d (equation %d): residual %.6g of terms summing to %.6g', what, k, i, R[i], S[i])
        done += 1
        rev += int(np.any(V < -1e-3))
    if not done:
        raise Discard
    cl = ['closed' if c['closed'] else 'open']
    if rev:
        cl.append('reverse-flow')
    if skipped:
        cl.append('stopped-at-nonconvergence')
    if any(c['area']):
        cl.append('storage')
    if c['P'] and any(c['len']):
        cl.append('seepage')
    return done, cl
