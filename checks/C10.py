"""C10 runup and overtopping."""
import itertools, math
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, close, product, NAN
from mc.repo import coast

LEVEL = 'model_checking'
ASSUMPTIONS = ['barrier widths of at least a millimetre']


def transect(t, P):
    """(Y row, Z row, expected split) of one transect type: kind, crest relative to the target, width."""
    kind, rel, w = t
    target = P['BeachTopElev'] + (P['TargetBarHeight'] - P['BeachTopElev']) * (w - P['SpitWidth']) / (P['TargetBarWidth'] - P['SpitWidth'])
    crest = target + rel
    Y = [3.5, NAN, NAN, NAN, NAN]
    Z = [crest, NAN, NAN, -1.]
    if kind in ('channel', 'channel over lagoon', 'zero width channel'):
        Y[1] = Y[0] - w
        Y[2] = Y[1] - (0. if kind == 'zero width channel' else 12.)
        Y[3] = Y[2] - 25.
        Y[4] = Y[3] - (30. if kind == 'channel over lagoon' else 0.)
        Z[1], Z[2] = -.5, 4.
    else:
        Y[3] = Y[0] - w
        Y[4] = Y[3] - (30. if kind == 'lagoon' else 0.)
    over = kind == 'zero width channel' or (kind != 'cliff' and rel > 0)
    return Y, Z, over


KINDS = ('cliff', 'lagoon', 'channel', 'channel over lagoon', 'zero width channel')
PARS = [{}, dict(OT_coef=0.01, OT_exp=1.), dict(BeachTopElev=3., SpitWidth=20., TargetBarHeight=4., TargetBarWidth=60., OT_exp=1.5),
        dict(BeachTopElev=2., SpitWidth=16., TargetBarHeight=6., TargetBarWidth=80.)]     # target heights exact in binary
EXACT = 3


def case(c):
    P = phys(**PARS[c['par']])
    tr = 0
    exact = c['par'] == EXACT                              # crest exactly at the target: not above it
    types = [(k, r, w) for k in KINDS for r in ((-1.5, 0., 1.) if exact else (-1.5, -1e-6, 1e-6, 1.2)) for w in ((.5, 16., 96.) if exact else (0.5, 15., 120.))]
    tags = {'over': 0, 'crest': 0, 'dry': 0}
    for pair in itertools.product(types, repeat=2):
        if c['thin'] and pair[0][2] not in (15., 16.) and pair[1][2] not in (15., 16.):
            continue
        rows = [transect(t, P) for t in pair]
        Y, Z = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
        k = Y.copy(), Z.copy()
        top = max(Z[:, 0])
        for wl in (top + c['over'],):
            R = c['runup']
            tot, prop = coast.overtopping(R, wl - R, Y, Z, P)
            tr += 1
            if not (close(Y, k[0], 0, 0) and close(Z, k[1], 0, 0)):
                raise Viol('overtopping changes the barrier')
            for i in (0, 1):
                p = wl - R + R - Z[i, 0]
                want = P['OT_coef'] * p ** P['OT_exp'] if p > 0 else 0.
                if not abs(tot[i] - want) <= 1e-9 * want + 1e-15:
                    raise Viol('overtopping rate %.9g at %s, expected %.9g' % (tot[i], pair[i], want))
                if float(prop[i]) != float(rows[i][2]):
                    raise Viol('share going over the barrier %s at %s, expected %s' % (prop[i], pair[i], rows[i][2]))
                tags['over'] += bool(rows[i][2])
                tags['crest'] += not rows[i][2]
                tags['dry'] += p <= 0
    return {'transitions': tr, 'states': [(c['par'], c['over'])], 'traces': tr, 'tags': tags}


def run(c):
    got = coast.runup(c['T'], c['H'], c['s'])
    want = 0.49 * math.sqrt(c['s']) * c['T'] * c['H']
    if not abs(got - want) <= 1e-12 + 1e-12 * want:
        raise Viol('runup %.12g, expected %.12g' % (got, want))
    return {'transitions': 1, 'states': [got], 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    yield Space('overtopping', case, product(par=range(len(PARS)), over=[-4., -1., -1e-9, 0., .3, 2., 6.], runup=[0., 2.] if big else [1.5],
                                             thin=[not big]), 'every pair of transect types x water height at the crest')
    yield Space('runup', run, product(T=[0., 3., 6.5, 12.], H=[0., .4, 2., 7.], s=[.01, .1, .13, .5, 1.]), 'period x height x slope')
