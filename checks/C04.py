"""C04 steady backwater profile."""
import numpy as np
from mc.run import Space, Viol
from mc.repo import riv
from mc.model import nums, product

LEVEL = 'exploration'
ASSUMPTIONS = ['solver tolerance 1e-9 and 200 iterations; every enumerated profile must be found (with a momentum coefficient above 1 failures to converge are skipped)',
               'energy balance to 10 times the solver tolerance (1e-8)']
g = 9.81


def case(c):
    n = c['n']
    slope = {'mild': 0.003, 'flat': 0.0, 'adverse': -0.004, 'steep': 0.03}[c['bed']]
    dx = np.array({'even': [20.] * (n - 1), 'uneven': [20., 35., 10., 28., 15.][:n - 1]}[c['dx']])
    z = -1.0 + np.r_[np.cumsum((slope * dx)[::-1])[::-1], 0.0]
    if c['bump']:
        z[n // 2] += c['bump']
    B = np.full(n, 30.)
    if c['width'] == 'contract':
        B[n // 2:] = 18.
    elif c['width'] == 'expand':
        B[n // 2:] = 45.
    Q, sea = c['Q'], c['sea']
    N = nums(Beta=c['beta'], ErrTol=1e-9, MaxIt=200)
    try:
        h, V = riv.solveSteady(dx, z, B, c['rough'], Q, sea, N)
    except AssertionError:
        # above 1 the momentum coefficient puts the least energy above the critical depth
        if c['beta'] > 1:
            return {'skipped': 'no convergence with momentum coefficient above 1'}
        raise
    h, V = np.asarray(h, float), np.asarray(V, float)
    crit = [(Q / b) ** 2 / g for b in B]
    crit = np.array([x ** (1 / 3) for x in crit])
    if not np.all(np.isfinite(h)) or not np.max(abs(h * V * B - Q)) <= 1e-9 * max(1, Q):
        raise Viol('discharge is not carried through: %s' % (h * V * B))
    if np.any(h < crit - 1e-9):
        raise Viol('depth below critical: %s < %s' % (h, crit))
    want = max(sea - z[-1], crit[-1])
    if abs(h[-1] - want) > 1e-9:
        raise Viol('downstream depth %.6f, expected %.6f' % (h[-1], want))
    E = z + h + c['beta'] * V ** 2 / (2 * g)
    Sf = V ** 2 * c['rough'] ** 2 / h ** (4 / 3)
    tags = {'critical': 0, 'balanced': 0}
    for i in range(n - 1):
        if h[i] > crit[i] + 1e-7:
            tags['balanced'] += 1
            loss = dx[i] * (Sf[i] + Sf[i + 1]) / 2
            if abs(E[i] - E[i + 1] - loss) > 1e-8:
                raise Viol('energy balance between sections %d and %d fails: drop %.8f, friction %.8f'
                           % (i, i + 1, E[i] - E[i + 1], loss))
        else:
            tags['critical'] += 1
            # a section is only put at critical depth if no deeper section balances with the one downstream
            hs = np.linspace(crit[i] * 1.0005, crit[i] * 4 + 3, 400)
            f = (z[i] + hs + c['beta'] * (Q / (B[i] * hs)) ** 2 / (2 * g) - E[i + 1]
                 - dx[i] / 2 * ((Q / (B[i] * hs)) ** 2 * c['rough'] ** 2 / hs ** (4 / 3) + Sf[i + 1]))
            if np.any(f < -1e-6) and f[0] < -1e-6:
                raise Viol('critical depth used at section %d although a deeper balance exists' % i)
    return {'transitions': 1, 'states': [tuple(np.round(h, 6))], 'traces': 1, 'tags': tags}


def spaces(tier):
    big = tier == 'thorough'
    cs = product(n=[2, 4, 6] if big else [5], bed=['mild', 'flat', 'adverse', 'steep'], dx=['even', 'uneven'],
                 bump=[0, 0.4, -0.3, 0.9] if big else [0, 0.4], width=['even', 'contract', 'expand'],
                 Q=[1., 10., 40., 120., 400.] if big else [5., 40., 160.],
                 sea=[-3., -0.5, 0.0, 0.5, 1., 2.] if big else [-2., 0., 0.6, 1.5], rough=[0.02, 0.04, 0.06], beta=[0., 1., 1.05])
    yield Space('profiles', case, cs, 'bed x spacing x width x discharge x sea level x roughness x momentum coefficient',
                min_active=len(cs) // 2)
