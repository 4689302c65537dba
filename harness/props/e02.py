"""E02 saved results are those of the coupled steps; fallback to the steady solution; repeatability."""
import inspect
import os
import numpy as np
from hypothesis import strategies as st
from core import *
import cfglib as cl
import simlib

ID = 'E02'
RULE = ('short simulations as for E01 with failures injected into the unsteady solution at generated steps (after it has spoilt its arrays); '
        'non-trivial = at least 3 steps')
N = {'quick': 90, 'thorough': 1600}
SHRINK_SECONDS = 60
ASSUMPTIONS = ['the independent driver calls the same component functions, whose own correctness is decided by the other properties',
               'cases where the steady solution itself has no result are discarded',
               'a difference is not reported when disturbing the boundary values in the tenth digit changes the expected results as well',
               'or when the driver agrees once the unsteady solutions (decided by R03, R04) are taken from the run of the code']
FAULTS = (Exception, ValueError, AssertionError, FloatingPointError, ZeroDivisionError, RuntimeError, np.linalg.LinAlgError, IndexError)


def strategy(tier):
    @st.composite
    def s(draw):
        c = draw(simlib.strategy(tier))
        c['fail'] = sorted(set(draw(st.lists(st.integers(0, 25), max_size=4)))) if draw(st.booleans()) else []
        c['kind'] = draw(st.integers(0, len(FAULTS) - 1))
        c['repeat'] = draw(st.integers(0, 3)) == 0
        return c
    return s()


class Driver:
    """Straightforward re-statement of the coupled model."""

    def __init__(self, path, nudge=0.0):
        self.m = cl.load(path)
        self.nudge = nudge
        self.rows, self.ts = [], []

    def at(self, series, t):
        """Boundary values at time t (the code's interpolation, decided by L05: its last digits can flip a threshold far away)."""
        import pandas as pd
        from hapuamod import core as hcore
        v = hcore.interpolate_at(series, pd.DatetimeIndex([t])).values
        if v.ndim == 1:
            return float(v[0]) * (1 + self.nudge)
        return {c: float(v[0, j]) * (1 - self.nudge) for j, c in enumerate(series.columns)}

    def run(self, unsteady):
        import pandas as pd
        from hapuamod import coast, mor, riv
        m = self.m
        P, NP, TP, OO = m.PhysicalPars, m.NumericalPars, m.TimePars, m.OutputOpts
        dx = NP['Dx']
        n = m.ShoreX.size
        nriv = m.RiverElev.size
        t = TP['StartTime']
        q, z = self.at(m.FlowTs, t), self.at(m.SeaLevelTs, t)
        w = self.at(m.WaveTs, t)
        lw, lv, od, ov, ed, ev = m.LagoonWL, m.LagoonVel, m.OutletDep, m.OutletVel, m.OutletEndDep, m.OutletEndVel
        closed = m.Closed

        def assemble(rdep, rvel):
            return riv.assembleChannel(m.ShoreX, m.ShoreY, m.ShoreZ, m.OutletEndX, m.OutletEndWidth, m.OutletEndElev, closed, m.RiverElev,
                                       rdep, rvel, lw, lv, od, ov, ed, ev, dx, P)
        (cdx, ce, cw, la, ll, h, v, onl, oc, cf, closed) = assemble(m.RiverWL - m.RiverElev, m.RiverVel)
        if np.all(lv == 0):
            (h, v) = riv.solveSteady(cdx, ce, cw, P['RoughnessManning'], np.array([q]), np.array([z]), NP)
            (lw, lv, od, ov, ed, ev) = riv.storeHydraulics(h, v, onl, oc, cf, m.ShoreZ[:, 3], closed)
        riv_ = cf == 0
        self.keep(t, z, q, w, lw, lv, np.zeros(n), od, ov, np.zeros(n), np.zeros(n - 1), np.zeros(n), np.zeros(n), h[riv_], v[riv_], np.zeros(nriv),
                  ed, ev, np.zeros(2), closed)
        self.keep_ts(t, z, q, w, lw, h[-1] * v[-1] * cw[-1], 0.0, closed, TP['MorDtMin'])
        outt, tst = t + OO['OutInt'], t + OO['TsOutInt']
        dt = TP['MorDtMin']
        self.steps = 0
        while t < TP['EndTime']:
            (cdx, ce, cw, la, ll, h, v, onl, oc, cf, closed) = assemble(h[cf == 0], v[cf == 0])
            stop = min(t + dt, TP['EndTime'])
            hyd = []
            while t + TP['HydDt'] * (len(hyd) + 1) <= stop:
                hyd.append(t + TP['HydDt'] * (len(hyd) + 1))
            hyd = hyd or [stop]
            Q = np.array([self.at(m.FlowTs, k) for k in hyd])
            S = np.array([self.at(m.SeaLevelTs, k) for k in hyd])
            try:
                unsteady(ce, cw, la, ll, closed, h, v, cdx, TP['HydDt'], Q, S, NP, P)
            except Exception:  # noqa: BLE001 - any failure means: use the steady solution
                (h, v) = riv.solveSteady(cdx, ce, cw, P['RoughnessManning'], Q[-1], S[-1], NP)
            (lw, lv, od, ov, ed, ev) = riv.storeHydraulics(h, v, onl, oc, cf, m.ShoreZ[:, 3], closed)
            bed = riv.calcBedload(ce, cw, h, v, cdx, P, NP['Psi'])
            w = self.at(m.WaveTs, t)
            lst = coast.longShoreTransport(m.ShoreY, dx, w['WavePower'], w['WavePeriod'], w['Wlen_h'], w['EDir_h'], P)
            ru = coast.runup(w['WavePeriod'], w['Hsig_Offshore'], P['BeachSlope'])
            (cst, ow) = coast.overtopping(ru, S[-1], m.ShoreY, m.ShoreZ, P)
            (dt, breach) = mor.updateMorphology(m.ShoreX, m.ShoreY, m.ShoreZ, m.OutletEndX, m.OutletEndWidth, m.OutletEndElev, m.RiverElev, onl, oc,
                                                lw, od, cw, h, cdx, cf, closed, lst, bed, cst, ow, dt, P, TP, NP)
            dt = min(dt, TP['EndTime'] - t)
            t = t + dt
            self.steps += 1
            if t >= outt:
                (lb, ob, eb) = riv.storeBedload(bed, n, onl, oc, cf, closed)
                self.keep(t, S[-1], Q[-1], w, lw, lv, lb, od, ov, ob, lst, cst, ow, h[cf == 0], v[cf == 0], bed[cf[:-1] == 0], ed, ev, eb, closed and not breach)
                outt += OO['OutInt']
            if t >= tst:
                self.keep_ts(t, S[-1], Q[-1], w, lw, h[-1] * v[-1] * cw[-1], bed[0], closed and not breach, dt)
                tst += OO['TsOutInt']
            if breach:
                closed = False

    def keep(self, t, z, q, w, lw, lv, lb, od, ov, ob, lst, cst, ow, rh, rv, rb, ed, ev, eb, closed):
        m = self.m
        Y, Z = m.ShoreY.copy(), m.ShoreZ.copy()
        self.rows.append({'time': t, 'sea_level': z, 'river_flow': q, 'hs_offshore': w['Hsig_Offshore'], 'wave_dir': np.rad2deg(w['EDir_h']),
                          'shoreline_y': Y[:, 0], 'outlet_bank1_y': Y[:, 1], 'outlet_bank2_y': Y[:, 2], 'lagoon_y': Y[:, 3], 'cliff_y': Y[:, 4],
                          'barrier_crest_z': Z[:, 0], 'outlet_bed_z': Z[:, 1], 'inner_barrier_crest_z': Z[:, 2], 'lagoon_bed_z': Z[:, 3],
                          'lagoon_wl': lw, 'lagoon_vel': lv, 'lagoon_bedload': lb, 'outlet_wl': od + Z[:, 1], 'outlet_vel': ov, 'outlet_bedload': ob,
                          'lst': lst * 3600, 'cst': cst * 3600, 'overwash_proportion': np.asarray(ow, float), 'river_bed_z': m.RiverElev.copy(),
                          'river_wl': m.RiverElev + rh, 'river_vel': rv, 'river_bedload': rb, 'outlet_end_x': np.array(m.OutletEndX, float),
                          'outlet_end_width': float(m.OutletEndWidth), 'outlet_end_z': float(m.OutletEndElev),
                          'outlet_end_wl': float(m.OutletEndElev) + ed[0], 'outlet_end_vel': ev[0], 'outlet_end_bedload': float(np.ravel(eb)[0]),
                          'dummy_xs_dep': ed[1], 'dummy_xs_vel': ev[1], 'outlet_closed': bool(closed)})
        self.rows[-1] = {k: (np.array(x, float) if k != 'time' else x) for k, x in self.rows[-1].items()}

    def keep_ts(self, t, z, q, w, lw, out, sed, closed, dt):
        import pandas as pd
        self.ts.append({'time': t, 'sea_level': z, 'river_flow': q, 'hs_offshore': w['Hsig_Offshore'], 'wave_dir': np.rad2deg(w['EDir_h']),
                        'lagoon_level': float(np.nanmean(lw)), 'lagoon_outflow': float(out), 'sed_inflow': float(sed),
                        'outlet_end_x': np.array(self.m.OutletEndX, float), 'outlet_closed': bool(closed), 'mordt': dt / pd.Timedelta(seconds=1)})


def arguments(real, a, k):
    """Positional arguments of a call of the unsteady solver, and its numerical inputs."""
    a = list(inspect.signature(real).bind(*a, **k).arguments.values())
    return a, [np.array(x.total_seconds() if hasattr(x, 'total_seconds') else x, float) for x in a[:11]]


class Injected:
    """Stands in for the unsteady solver: fails at the given calls after spoiling its result arrays."""

    def __init__(self, real, calls, kind):
        self.real, self.calls, self.kind, self.n, self.hits = real, set(calls), kind, 0, 0

    def __call__(self, *a, **k):
        self.n += 1
        if self.n - 1 in self.calls:
            self.hits += 1
            for x in arguments(self.real, a, k)[0][5:7]:
                x[:] = np.nan if self.n % 2 else 1e6
            raise FAULTS[self.kind]('injected failure')
        return self.real(*a, **k)


def compare(nm, got, times, want):
    need(len(times) == len(want), '%s: %d times written, expected %d', nm, len(times), len(want))
    for i, (t, r) in enumerate(zip(times, want)):
        need(abs((t - r['time']).total_seconds()) < 1e-4, '%s: time %d is %s, expected %s', nm, i, t, r['time'])
        for k, x in r.items():
            if k == 'time':
                continue
            x = np.asarray(x, float)
            need(k in got, '%s: no variable %s', nm, k)
            sc = float(np.nanmax(np.abs(x))) if x.size and np.any(np.isfinite(x)) else 0.0
            close(np.asarray(got[k][i], float).reshape(x.shape), x, '%s: %s at %s' % (nm, k, t), 1e-5, 1e-6 + 1e-6 * sc)


class Recorder:
    """Keeps arguments and results of each call of the unsteady solver."""

    def __init__(self, real, inner):
        self.real, self.inner, self.calls = real, inner, []

    def __call__(self, *a, **k):
        a, args = arguments(self.real, a, k)
        err = None
        try:
            self.inner(*a)
        except Exception as e:  # noqa: BLE001
            err = e
        self.calls.append((args, np.array(a[5]), np.array(a[6]), err))
        if err is not None:
            raise err


class Replayer:
    """Answers a call of the unsteady solver as recorded, when it is the same call up to rounding."""

    def __init__(self, real, inner, calls):
        self.real, self.inner, self.calls, self.n = real, inner, calls, 0

    def __call__(self, *a, **k):
        a, args = arguments(self.real, a, k)
        i, self.n = self.n, self.n + 1
        if i < len(self.calls):
            old, h, v, err = self.calls[i]
            if all(x.shape == y.shape and np.allclose(x, y, 1e-6, 1e-6, equal_nan=True) for x, y in zip(args, old)):
                if err is not None:
                    raise err
                a[5][:], a[6][:] = h, v
                return
        self.inner(*a)


def patched(real, fn, d, p, what):
    from hapuamod import core as hcore
    from hapuamod import riv
    alias = [(m, k) for m in (riv, hcore) for k, f in list(vars(m).items()) if f is real]
    try:
        for m, k in alias:
            setattr(m, k, fn)
        simlib.run(d, p, what=what)
    finally:
        for m, k in alias:
            setattr(m, k, real)


def sensitive(d, p, c, real, drv):
    """Whether rounding errors explain the difference.

    Either disturbances in the tenth digit of the boundary values already change the expected results (a threshold within rounding error), or the
    unsteady solution of some step is itself ill-conditioned: the driver agrees once that solution is taken from the run of the code."""
    def quiet(o, fn):
        with np.errstate(all='ignore'):
            o.run(fn)
        return o
    for e in (1e-10, -1e-10):
        try:
            o = quiet(Driver(p, e), Injected(real, c['fail'], c['kind']))
            for x, y in ((drv.rows, o.rows), (drv.ts, o.ts)):
                compare('nudged', {k: [r[k] for r in y] for k in (y[0] if y else {})}, [r['time'] for r in y], x)
        except Exception:  # noqa: BLE001 - also a component failing
            return True
    rec = Recorder(real, Injected(real, c['fail'], c['kind']))
    patched(real, rec, d, p, 'repeated simulation')
    try:
        o = quiet(Driver(p), Replayer(real, Injected(real, c['fail'], c['kind']), rec.calls))
        f1, f2 = simlib.outputs(c)
        compare('results', *simlib.results(os.path.join(d, f1)), o.rows)
        compare('time series', *simlib.results(os.path.join(d, f2)), o.ts)
    except Exception:  # noqa: BLE001
        return False
    return True


def check(c):
    from hapuamod import riv
    real = riv.solveFullPreissmann
    with cl.folder('e02') as d:
        p = simlib.setup(d, c)
        inj = Injected(real, c['fail'], c['kind'])
        drv = Driver(p)
        try:
            with np.errstate(all='ignore'):
                drv.run(inj)
        except Exception:  # noqa: BLE001 - components fail without a driver at fault
            raise Discard()
        inj2 = Injected(real, c['fail'], c['kind'])
        patched(real, inj2 if c['fail'] else real, d, p, 'simulation')
        if c['fail'] and inj2.n == 0 and inj.n:
            raise Discard()      # failures could not be injected
        f1, f2 = simlib.outputs(c)
        v1, a1 = simlib.results(os.path.join(d, f1))
        v2, a2 = simlib.results(os.path.join(d, f2))
        try:
            compare('results', v1, a1, drv.rows)
            compare('time series', v2, a2, drv.ts)
        except Violation:
            if sensitive(d, p, c, real, drv):
                raise Discard() from None
            raise
        if c['repeat']:
            inj3 = Injected(real, c['fail'], c['kind'])
            patched(real, inj3 if c['fail'] else real, d, p, 'repeated simulation')
            w1, b1 = simlib.results(os.path.join(d, f1))
            w2, b2 = simlib.results(os.path.join(d, f2))
            need(a1 == b1 and a2 == b2, 'repeated simulation has other output times')
            for x, y in ((v1, w1), (v2, w2)):
                for k in x:
                    need(np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == 'f'), 'repeated simulation gives other values of %s', k)
    cl_ = np.asarray(v2['outlet_closed'], bool)
    return {'nontrivial': drv.steps > 2, 'classes': [c['mode'], 'failures-%d' % min(inj2.hits, 3) if c['fail'] else 'no-failure', 'repeated' if c['repeat'] else 'once']
            + (['opens'] if np.any(cl_[:-1] & ~cl_[1:]) else []) + (['closes'] if np.any(~cl_[:-1] & cl_[1:]) else [])}
