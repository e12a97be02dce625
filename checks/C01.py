"""C01 water volume, decided per hydraulic step on every bounded channel and forcing sequence."""
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, td, product
from checks import hydro

LEVEL = 'model_checking'
ASSUMPTIONS = ['rectangular sections; solver tolerance 1e-10 so that convergence is complete; steps that do not '
               'converge are outside the statement and are counted as skipped (C28)',
               'reference: independent per-section volume ledger in float64, relative tolerance 1e-8']


def case(c):
    ch = hydro.channel(c['geo'], c['closed'])
    P = phys(BarrierPermeability=c['perm'])
    N = nums(Theta=c['theta'], Beta=c['beta'], ErrTol=1e-10, MaxIt=60)
    Qs, Ss = hydro.SEQ[c['seq']]
    h, V = ch['h'].copy(), ch['V'].copy()
    dt = c['dt']
    z, B, A, L, dx = (ch[k] for k in 'z B LagArea LagLen dx'.split())
    th, n = c['theta'], z.size
    dx2 = np.zeros(n)
    for i in range(n - 1):
        dx2[i] += dx[i] / 2
        dx2[i + 1] += dx[i] / 2
    planform = B * dx2 + A                      # surface area belonging to each section
    # metres of lagoon seeping at the mean level of each reach
    seep = np.array([(L[i] + L[i + 1]) / 2 for i in range(n - 1)])
    seep[0] += L[0] / 2
    seep[-1] += L[-1] / 2
    assert abs(seep.sum() - L.sum()) < 1e-9
    tr = 0
    states = []
    sea_old = Ss[0] if c['closed'] else z[-1] + h[-1]
    # one call per prefix: the state after k steps of one uninterrupted call of k steps
    prev_h, prev_V = h.copy(), V.copy()
    prev_h[prev_h <= 0] = 1e-4
    for k in range(1, len(Qs) + 1):
        h, V = ch['h'].copy(), ch['V'].copy()
        tr += 1
        if not hydro.solve(z, B, A, L, c['closed'], h, V, dx, td(dt), Qs[:k], Ss[:k], N, P):
            return {'skipped': 'not converged', 'transitions': tr}
        sea = Ss[k - 1]
        q_old, q_new = prev_h * prev_V * B, h * V * B
        stored = np.sum(planform * (h - prev_h))
        inflow = dt * (th * q_new[0] + (1 - th) * q_old[0])
        out = dt * (th * q_new[-1] + (1 - th) * q_old[-1])
        lev_new, lev_old = z + h - sea, z + prev_h - sea_old
        rl = lambda w: (w[1:] + w[:-1])
        # reach-mean head, summed over both ends (head of a reach = mean of its two sections)
        seeped = dt * P['BarrierPermeability'] * np.sum(seep * (th * rl(lev_new) + (1 - th) * rl(lev_old)) / 2)
        err = stored - (inflow - out - seeped)
        scale = np.sum(planform * h) + abs(inflow) + 1
        if abs(err) > 1e-8 * scale:
            raise Viol('water volume not conserved in step %d: imbalance %.6g m3 of %.6g m3 stored' % (k, err, scale),
                       stored=stored, inflow=inflow, outflow=out, seepage=seeped)
        states.append(tuple(np.round(np.r_[h, V], 6)))
        prev_h, prev_V, sea_old = h, V, sea
    return {'transitions': tr, 'states': states, 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    geos = hydro.geos(big)
    seqs = list(hydro.SEQ) if big else ['steady', 'rise', 'tide', 'mixed']
    cs = product(geo=geos, closed=[False, True], perm=[0.0, 0.001, 0.02], theta=[0.55, 0.7, 1.0] if big else [0.6, 1.0],
                 beta=[0.0, 1.0] if big else [0.0], dt=[2.0, 10.0, 30.0] if big else [5.0, 20.0], seq=seqs)
    yield Space('ledger', case, cs, 'channel layouts x permeability x time weighting x timestep x forcing sequences; '
                'balance after every step of the sequence', min_active=len(cs) // 2)
