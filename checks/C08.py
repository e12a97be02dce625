"""C08 bedload law, direction, weighting and storage."""
import itertools, math
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, close, product, assemble, Chan
from mc.repo import riv
from checks.assembly import distinct_layout, positions

LEVEL = 'model_checking'
ASSUMPTIONS = ['reference law evaluated section by section in scalar arithmetic; tolerance 1e-9 relative']


def node(z, B, h, V, P):
    """Excess shear (Meyer-Peter Muller) bulk rate of one section, signed with the flow."""
    S = V * V * P['GrainRoughness'] ** 2 / h ** (4. / 3)
    shields = P['RhoRiv'] * P['Gravity'] * h * S / ((P['RhoSed'] - P['RhoRiv']) * P['Gravity'] * P['GrainSize'])
    ex = shields - P['CritShieldsStress']
    if ex <= 0:
        return 0.
    rate = (P['MPM_coef'] * ex ** P['MPM_exp'] * math.sqrt((P['RhoSed'] / P['RhoRiv'] - 1) * P['Gravity'] * P['GrainSize'] ** 3)
            * B / (1 - P['VoidRatio']))
    return math.copysign(rate, V)


def vcrit(h, P):
    """Velocity at exactly the critical shear."""
    return math.sqrt(P['CritShieldsStress'] * (P['RhoSed'] - P['RhoRiv']) * P['GrainSize'] * h ** (1. / 3)
                     / (P['RhoRiv'] * P['GrainRoughness'] ** 2))


PARS = [{}, dict(GrainSize=0.002), dict(RhoSed=2400., RhoRiv=1010.), dict(VoidRatio=0.3, MPM_coef=8.0), dict(MPM_exp=1.6),
        dict(GrainRoughness=0.025, CritShieldsStress=0.03), dict(Gravity=9.79)]


def law(c):
    P = phys(**PARS[c['par']])
    tr, states, moved, still = 0, set(), 0, 0
    hs = (0.3, 1.0, 3.0)
    for h in itertools.product(hs, repeat=3):
        vc = [vcrit(x, P) for x in h]
        for m in itertools.product((-1.8, -1.0000001, -0.9999999, 0., 0.4, 0.9999999, 1.0000001, 3.), repeat=3):
            if c['thin'] and h[0] != 1.0:
                continue
            V = np.array([a * b for a, b in zip(m, vc)])
            B = np.array([40., 12., 65.])
            z = np.array([0., -.5, -3.])
            ha = np.array(h)
            keep = [x.copy() for x in (z, B, ha, V)]
            got = riv.calcBedload(z, B, ha, V, np.full(2, 20.), P, c['psi'])
            for a, b in zip(keep, (z, B, ha, V)):
                if not np.array_equal(a, b):
                    raise Viol('bedload changes its inputs', h=h, V=keep[3])
            q = [node(*x, P) for x in zip(z, B, h, V)]
            want = [(1 - c['psi']) * q[i] + c['psi'] * q[i + 1] for i in (0, 1)]
            tr += 1
            if not close(got, want, 1e-9, 1e-18):
                raise Viol('bedload %s, expected %s' % (np.asarray(got).tolist(), want), h=h, V=V)
            moved += q[0] != 0
            still += q[0] == 0
            states.add(tuple(np.sign(q)))
    return {'transitions': tr, 'states': list(states), 'traces': tr, 'tags': {'moving': moved, 'below threshold': still}}


def stored(c):
    tr = 0
    for bits in itertools.product([0, 1], repeat=6):
        lag = np.array(bits[:3] + (1,) + bits[3:], bool)
        us, ds = c['pos'] if c['pos'] else (None, None)
        s = distinct_layout(3, 20., us, ds, lag, c['closed'])
        ch = Chan(assemble(s, phys(), nums()))
        Bed = 0.01 + 0.003 * np.arange(ch.z.size - 1)
        keep = Bed.copy()
        L, Ot, E = riv.storeBedload(Bed, 7, ch.OnlineLagoon, ch.OutletChanIx, ch.Flag, ch.Closed)
        wl, wo, we = np.zeros(7), np.zeros(7), 0.0
        li = list(map(int, ch.OnlineLagoon))
        oi = list(map(int, ch.OutletChanIx))
        for k in range(ch.z.size - 1):           # reach k leaves section k
            f = ch.Flag[k]
            if f == 1:
                wl[li[k - 2]] = keep[k]
            elif f == 2:
                wo[oi[k - 2 - len(li)]] = keep[k]
            elif f == 3:
                we = keep[k]
        tr += 1
        if not (close(L, wl) and close(Ot, wo) and close(np.ravel(E), [we])):
            raise Viol('bedload stored as %s %s %s, expected %s %s %s' % (L, Ot, E, wl, wo, we), lagoon=bits)
        if not np.array_equal(Bed, keep):
            raise Viol('storing bedload changes it')
    return {'transitions': tr, 'states': [(c['pos'], c['closed'])], 'traces': tr}


def spaces(tier):
    big = tier == 'thorough'
    yield Space('law', law, product(par=range(len(PARS)), psi=[0., 0.4, 0.5, 1.] if big else [0., 0.4, 1.], thin=[not big]),
                'velocities on both sides of the threshold in both directions x depths x weighting x sediment')
    yield Space('storage', stored, [dict(pos=p, closed=cl) for p in positions(3, big) for cl in (False, True)] + [dict(pos=None, closed=True)],
                'every outlet position x open/closed x every subset of lagoon transects')
