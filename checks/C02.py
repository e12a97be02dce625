"""C02 boundary conditions, momentum balance and stationary solutions of the unsteady solver."""
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, td, product
from checks import hydro

LEVEL = 'model_checking'
ASSUMPTIONS = ['solver tolerance 1e-10 so that convergence is complete; steps that do not converge are skipped (C28)',
               'with a momentum coefficient above zero only seaward flow is in the statement',
               'reference: per-reach implicit (Preissmann) momentum balance in float64, relative tolerance 1e-7']


def case(c):
    ch = hydro.channel(c['geo'], c['closed'])
    P = phys(BarrierPermeability=c['perm'], RoughnessManning=c['n'])
    N = nums(Theta=c['theta'], Beta=c['beta'], ErrTol=1e-10, MaxIt=60)
    Qs, Ss = hydro.SEQ[c['seq']]
    z, B, A, L, dx = (ch[k] for k in 'z B LagArea LagLen dx'.split())
    th, g, dt, nn = c['theta'], P['Gravity'], c['dt'], P['RoughnessManning']
    ph, pV = ch['h'].copy(), ch['V'].copy()
    if c['rev']:
        pV[-2:] *= -0.3
    if c['closed']:
        pV[-1] = -.15 if c['rev'] else .1           # whatever the velocity was before the end closed
    h0, V0 = ph.copy(), pV.copy()
    tr, states = 0, []
    for k in range(1, len(Qs) + 1):
        h, V = h0.copy(), V0.copy()
        tr += 1
        if not hydro.solve(z, B, A, L, c['closed'], h, V, dx, td(dt), Qs[:k], Ss[:k], N, P):
            return {'skipped': 'not converged', 'transitions': tr}
        if abs(h[0] * V[0] * B[0] - Qs[k - 1]) > 1e-6 * max(1, abs(Qs[k - 1])):
            raise Viol('upstream discharge %.6f is not the inflow %.6f in step %d' % (h[0] * V[0] * B[0], Qs[k - 1], k))
        if c['closed'] and abs(V[-1]) > 1e-7:
            raise Viol('flow through the end of a closed channel: %g m/s in step %d' % (V[-1], k))
        if not c['closed'] and abs(z[-1] + h[-1] - Ss[k - 1]) > 1e-7:
            raise Viol('downstream level %.6f is not the sea level %.6f in step %d' % (z[-1] + h[-1], Ss[k - 1], k))
        if np.any(h <= 0):
            raise Viol('non-positive depth')
        if c['beta'] == 0 or (np.all(V >= 0) and np.all(pV >= 0)):
            for i in range(z.size - 1):
                def terms(hh, VV):
                    a = [hh[j] * B[j] for j in (i, i + 1)]
                    sf = [VV[j] * abs(VV[j]) * nn ** 2 / hh[j] ** (4 / 3) for j in (i, i + 1)]
                    mom = c['beta'] * (VV[i + 1] ** 2 * a[1] - VV[i] ** 2 * a[0])
                    prs = g * (a[0] + a[1]) / 2 * ((z[i + 1] + hh[i + 1]) - (z[i] + hh[i]))   # water surface slope
                    frc = g * dx[i] * (a[0] * sf[0] + a[1] * sf[1]) / 2
                    return mom + prs + frc
                new, old = terms(h, V), terms(ph, pV)
                inert = dx[i] / dt * sum(h[j] * V[j] * B[j] - ph[j] * pV[j] * B[j] for j in (i, i + 1)) / 2
                res = inert + th * new + (1 - th) * old
                scale = g * max(h[i] * B[i], h[i + 1] * B[i + 1]) + abs(inert)
                if abs(res) > 1e-7 * scale:
                    raise Viol('momentum balance fails in reach %d in step %d: residual %.3g of %.3g' % (i, k, res, scale))
        states.append(tuple(np.round(np.r_[h, V], 6)))
        ph, pV = h, V
    return {'transitions': tr, 'states': states, 'traces': 1}


def within(c):
    """The step computed with a coarse tolerance lies within that tolerance of the exact solution of the equations."""
    ch = hydro.channel(c['geo'], c['closed'])
    P = phys(BarrierPermeability=.005)
    z, B, A, L, dx = (ch[k] for k in 'z B LagArea LagLen dx'.split())
    Qs, Ss = hydro.SEQ[c['seq']]
    tr, states = 0, []
    h0, V0 = ch['h'].copy(), ch['V'].copy()
    for k in range(len(Qs)):
        he, Ve = h0.copy(), V0.copy()
        if not hydro.solve(z, B, A, L, c['closed'], he, Ve, dx, td(c['dt']), Qs[k:k + 1], Ss[k:k + 1], nums(Theta=c['theta'], Beta=c['beta'], ErrTol=1e-11, MaxIt=80), P):
            return {'skipped': 'not converged', 'transitions': tr}
        for tol in (.1, .03, .01):
            h, V = h0.copy(), V0.copy()
            tr += 1
            if not hydro.solve(z, B, A, L, c['closed'], h, V, dx, td(c['dt']), Qs[k:k + 1], Ss[k:k + 1], nums(Theta=c['theta'], Beta=c['beta'], ErrTol=tol, MaxIt=80), P):
                raise Viol('converges to 1e-11 but not to %g' % tol)
            d = max(np.max(abs(h - he)), np.max(abs(V - Ve)))
            if d > tol:
                raise Viol('with tolerance %g step %d is off the solution of the equations by %.3g' % (tol, k, d))
            states.append((k, tol, round(float(d), 9)))
        h0, V0 = he, Ve
    return {'transitions': tr, 'states': states}


def rest(c):
    """Still water under a level sea, and steady flow, are fixed points."""
    ch = hydro.channel(c['geo'], c['closed'])
    z, B, A, L, dx = (ch[k] for k in 'z B LagArea LagLen dx'.split())
    if c['bed'] == 'rough':
        z = z + 0.15 * (np.arange(z.size) % 3)
    P = phys(BarrierPermeability=c['perm'])
    N = nums(Theta=c['theta'], Beta=c['beta'], ErrTol=1e-10 if c['tol'] == 'fine' else 1e-3, MaxIt=60)
    level = c['level']
    steps = 4
    if c['kind'] == 'still':
        h, V, Q, sea = level - z, np.zeros(z.size), 0.0, level
    else:                                     # let it become steady first
        if c['closed']:
            return {'skipped': 'no steady flow in a closed channel', 'transitions': 0}
        h, V, Q, sea = level - z, np.full(z.size, 0.3), 30.0, level
        Nf = nums(Theta=1.0, Beta=c['beta'], ErrTol=1e-10, MaxIt=100)
        Pf = phys(BarrierPermeability=c['perm'])
        if not hydro.solve(z, B, A, L, False, h, V, dx, td(60.), [Q] * 400, [sea] * 400, Nf, Pf):
            return {'skipped': 'not converged'}
    h0, V0 = h.copy(), V.copy()
    if not hydro.solve(z, B, A, L, c['closed'], h, V, dx, td(c['dt']), [Q] * steps, [sea] * steps, N, P):
        return {'skipped': 'not converged'}
    tol = 1e-9 if c['kind'] == 'still' else 2e-6
    if max(np.max(abs(h - h0)), np.max(abs(V - V0))) > tol:
        raise Viol('%s water does not stay put: moves by %.3g m, %.3g m/s' % (
            c['kind'], np.max(abs(h - h0)), np.max(abs(V - V0))))
    return {'transitions': 2, 'states': [tuple(np.round(np.r_[h, V], 6))], 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    geos = hydro.geos(big)
    cs = product(geo=geos, closed=[False, True], rev=[False, True], perm=[0.0, 0.005], n=[0.03, 0.05] if big else [0.04],
                 theta=[0.6, 1.0], beta=[0.0, 1.0], dt=[5.0, 30.0] if big else [10.0],
                 seq=list(hydro.SEQ) if big else ['rise', 'mixed', 'tide', 'surge'])
    yield Space('boundary+momentum', case, cs, 'channel layouts x flow direction x roughness x weighting x forcing',
                min_active=len(cs) // 2)
    cs = product(geo=geos, closed=[False, True], theta=[.6, 1.], beta=[0., 1.] if big else [0.], dt=[5., 30.] if big else [20.], seq=list(hydro.SEQ))
    yield Space('tolerance', within, cs, 'channel layouts x weighting x timestep x forcing x tolerance', min_active=len(cs) // 2)
    cs = product(geo=geos, closed=[False, True], perm=[0.0, 0.005], theta=[0.55, 1.0], beta=[0.0, 1.0],
                 bed=['plain', 'rough'], level=[0.5, 1.4], dt=[5.0, 60.0], tol=['fine', 'default'], kind=['still'])
    yield Space('still water', rest, cs, 'rest states', min_active=len(cs) // 2)
    cs = product(geo=geos, closed=[False], perm=[0.0], theta=[0.6, 1.0], beta=[0.0, 1.0] if big else [0.0],
                 bed=['plain'], level=[0.8, 1.5] if big else [0.8], dt=[5.0, 60.0], tol=['fine'], kind=['steady'])
    yield Space('steady flow', rest, cs, 'steady states reached by the solver itself', min_active=len(cs) // 2)
