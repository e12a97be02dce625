"""C03 every way to cut a hydraulic series into consecutive calls gives the same result."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, td, product
from checks import hydro

LEVEL = 'model_checking'
ASSUMPTIONS = ['solver tolerances 1e-10 and 0.05; comparison to 1e-7; series that do not converge are skipped (C28)',
               'closed outlet: constant sea level, as the first sea level of a call stands for the previous one']


def case(c):
    ch = hydro.channel(c['geo'], c['closed'])
    P = phys(BarrierPermeability=0.002)
    N = nums(Theta=c['theta'], Beta=0., ErrTol=c['tol'], MaxIt=60)
    Qs, Ss = hydro.SEQ[c['seq']]
    if c['closed']:
        Ss = [Ss[0]] * len(Ss)
    z, B, A, L, dx = (ch[k] for k in 'z B LagArea LagLen dx'.split())
    n = len(Qs)
    ref, tr, states = None, 0, []
    for cuts in itertools.product([False, True], repeat=n - 1):
        h, V = ch['h'].copy(), ch['V'].copy()
        ends = [i + 1 for i, x in enumerate(cuts) if x] + [n]
        a = 0
        for b in ends:
            tr += 1
            if not hydro.solve(z, B, A, L, c['closed'], h, V, dx, td(c['dt']), Qs[a:b], Ss[a:b], N, P):
                return {'skipped': 'not converged', 'transitions': tr}
            a = b
        if ref is None:
            ref = (h, V)
        d = max(np.max(abs(h - ref[0])), np.max(abs(V - ref[1])))
        if d > 1e-7:
            raise Viol('cutting the series after steps %s changes the result by %.3g' % (ends[:-1], d))
        states.append(tuple(np.round(h, 6)))
    return {'transitions': tr, 'states': states, 'traces': 2 ** (n - 1)}


def spaces(tier):
    big = tier == 'thorough'
    cs = product(geo=hydro.geos(big)[:: 1 if big else 2], tol=[1e-10, .05], closed=[False, True], theta=[0.6, 1.0] if big else [0.6],
                 dt=[5., 20.] if big else [10.], seq=list(hydro.SEQ) if big else ['mixed', 'tide', 'fall'])
    yield Space('cuts', case, cs, 'all 2^(n-1) cuts of each series', min_active=len(cs) // 2)
