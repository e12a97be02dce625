"""Reference composition of a whole run: the documented loop over the repository's own components.

The forcing is interpolated here independently; everything else calls the component functions in the
documented order and yields, per step, what the results and timeseries files should hold."""
import numpy as np
import pandas as pd
from .repo import riv, coast
from .model import State, FIELDS, Chan, assemble, store, update


def lin(ts, t):
    """Piecewise linear value of a series at a time."""
    x = ts.index.values.astype('datetime64[ns]').astype('int64')
    q = pd.Timestamp(t).value
    v = np.asarray(ts.values, float).ravel()
    j = int(np.searchsorted(x, q, side='right')) - 1
    if x[j] == q or j == x.size - 1:
        return float(v[j])
    return float(v[j] + (v[j + 1] - v[j]) * ((q - x[j]) / (x[j + 1] - x[j])))


def circ(ts, t):
    x = ts.index.values.astype('datetime64[ns]').astype('int64')
    q = pd.Timestamp(t).value
    v = np.asarray(ts.values, float).ravel()
    j = min(int(np.searchsorted(x, q, side='right')) - 1, x.size - 1)
    if j == x.size - 1 or x[j] == q:
        return float(np.mod(v[j] + np.pi, 2 * np.pi) - np.pi)
    d = np.mod(v[j + 1] - v[j] + np.pi, 2 * np.pi) - np.pi
    return float(np.mod(v[j] + d * ((q - x[j]) / (x[j + 1] - x[j])) + np.pi, 2 * np.pi) - np.pi)


def rec(s, t, sea, Q, Hs, dir, lb, ob, eb, LST, CST, OW, rb, closed, lwl_mean, outflow, sedin, dt):
    Y, Z = s.ShoreY.copy(), s.ShoreZ.copy()
    out = dict(sea_level=sea, river_flow=Q, hs_offshore=Hs, wave_dir=dir, shoreline_y=Y[:, 0], outlet_bank1_y=Y[:, 1], outlet_bank2_y=Y[:, 2],
               lagoon_y=Y[:, 3], cliff_y=Y[:, 4], barrier_crest_z=Z[:, 0], outlet_bed_z=Z[:, 1], inner_barrier_crest_z=Z[:, 2], lagoon_bed_z=Z[:, 3],
               lagoon_wl=s.LagoonWL.copy(), lagoon_vel=s.LagoonVel.copy(), lagoon_bedload=lb, outlet_wl=s.OutletDep + Z[:, 1], outlet_vel=s.OutletVel.copy(),
               outlet_bedload=ob, cst=CST * 3600, overwash_proportion=OW, lst=LST * 3600, river_bed_z=s.RiverElev.copy(),
               river_wl=s.RiverElev + s.RivDep, river_vel=s.RivVel.copy(), river_bedload=rb, outlet_end_x=s.OutletEndX.copy(),
               outlet_end_width=float(s.OutletEndWidth), outlet_end_z=float(s.OutletEndElev), outlet_end_wl=float(s.OutletEndElev) + s.OutletEndDep[0],
               outlet_end_vel=s.OutletEndVel[0], outlet_end_bedload=float(np.ravel(eb)[0]), dummy_xs_dep=s.OutletEndDep[1], dummy_xs_vel=s.OutletEndVel[1],
               outlet_closed=float(closed))
    ts = dict(sea_level=sea, river_flow=Q, hs_offshore=Hs, wave_dir=dir, lagoon_level=lwl_mean, lagoon_outflow=outflow, sed_inflow=sedin,
              outlet_end_x=s.OutletEndX.copy(), outlet_closed=float(closed), mordt=dt.total_seconds())
    return t, {k: np.asarray(v, float) for k, v in out.items()}, {k: np.asarray(v, float) for k, v in ts.items()}


def reference(m, steady_at=(), limit=100000):
    """Records of a run from a loaded model.  steady_at: steps whose hydraulics are the steady profile."""
    P, N, T = m.PhysicalPars, m.NumericalPars, m.TimePars
    s = State()
    for f in FIELDS:
        if f not in ('RivDep', 'RivVel'):
            setattr(s, f, np.array(getattr(m, f), float))
    s.RivDep, s.RivVel = np.array(m.RiverWL - m.RiverElev, float), np.array(m.RiverVel, float)
    s.Closed = bool(m.Closed)
    t = T['StartTime']
    Q, sea = lin(m.FlowTs, t), lin(m.SeaLevelTs, t)
    W = lambda t: (circ(m.WaveTs.EDir_h, t),) + tuple(lin(m.WaveTs[k], t) for k in ('WavePower', 'WavePeriod', 'Wlen_h', 'Hsig_Offshore'))
    dir, _, _, _, Hs = W(t)
    c = Chan(assemble(s, P, N))
    s.Closed = bool(c.Closed)
    if np.all(s.LagoonVel == 0):                       # no hydraulics to continue from
        c.h, c.V = riv.solveSteady(c.dx, c.z, c.B, P['RoughnessManning'], Q, sea, N)
        store(s, c, c.h, c.V)
    else:
        s.RivDep, s.RivVel = c.h[c.Flag == 0].copy(), c.V[c.Flag == 0].copy()
    n = s.ShoreX.size
    zero = np.zeros
    yield rec(s, t, sea, Q, Hs, dir, zero(n), zero(n), zero(2), zero(n - 1), zero(n), zero(n), zero(s.RiverElev.size), s.Closed,
              np.nanmean(s.LagoonWL), c.h[-1] * c.V[-1] * c.B[-1], 0., T['MorDtMin'])
    dt, k = T['MorDtMin'], 0
    while t < T['EndTime'] and k < limit:
        left = T['EndTime'] - t
        dt = min(dt, left)
        hyd = min(T['HydDt'], dt)
        ht = [t + hyd * (j + 1) for j in range(dt.value // hyd.value)]
        Qs, seas = np.array([lin(m.FlowTs, x) for x in ht]), np.array([lin(m.SeaLevelTs, x) for x in ht])
        c = Chan(assemble(s, P, N))
        s.Closed = bool(c.Closed)
        failed = k in steady_at
        if not failed:
            try:
                riv.solveFullPreissmann(c.z, c.B, c.LagArea, c.LagLen, c.Closed, c.h, c.V, c.dx, hyd, Qs, seas, N, P)
            except Exception:
                failed = True
        if failed:
            c.h, c.V = riv.solveSteady(c.dx, c.z, c.B, P['RoughnessManning'], Qs[-1], seas[-1], N)
        store(s, c, c.h, c.V)
        Bed = riv.calcBedload(c.z, c.B, c.h, c.V, c.dx, P, N['Psi'])
        dir, WP, WT, WL, Hs = W(t)
        LST = coast.longShoreTransport(s.ShoreY, N['Dx'], WP, WT, WL, dir, P)
        CST, OW = coast.overtopping(coast.runup(WT, Hs, P['BeachSlope']), seas[-1], s.ShoreY, s.ShoreZ, P)
        level, flow = np.nanmean(s.LagoonWL), c.h[-1] * c.V[-1] * c.B[-1]
        rb = Bed[c.Flag[:-1] == 0]
        dt, breach = update(s, c, LST, Bed, CST, OW, dt, P, {**T, 'MorDtMax': min(T['MorDtMax'], left)}, N)
        t = t + dt
        lb, ob, eb = riv.storeBedload(Bed, n, c.OnlineLagoon, c.OutletChanIx, c.Flag, c.Closed)
        if breach:
            s.Closed = False
        yield rec(s, t, seas[-1], Qs[-1], Hs, dir, lb, ob, eb, LST, CST, OW, rb, s.Closed, level, flow, Bed[0], dt)
        k += 1
