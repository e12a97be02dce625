"""C09 longshore transport law."""
import itertools, math
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, close, product
from mc.repo import coast

LEVEL = 'model_checking'
ASSUMPTIONS = ['waves that would break seaward of the depth the data apply at are refracted no further than along the shore',
               'exactly at a right angle the rate is zero to rounding either way']
DEG = math.pi / 180


def segment(dy, dx, wp, T, wl, a, P):
    """CERC rate of one segment; None at exactly a right angle."""
    shore = math.atan2(-dy, dx)                 # rotation of the segment
    loc = a - shore
    if wp == 0 or abs(loc) > math.pi / 2:
        if wp and abs(abs(loc) - math.pi / 2) < 1e-9:
            return None
        return 0.0
    hb = (8. / (P['RhoSea'] * P['Gravity'] ** 1.5 * P['GammaRatio'] ** 2) * wp) ** (2. / 5)
    cb = math.sqrt(P['Gravity'] * hb)
    ch = P['Gravity'] * T / (2 * math.pi) * math.tanh(2 * math.pi * P['WaveDataDepth'] / wl)
    sb = math.sin(loc) * cb / ch
    sb = max(-1., min(1., sb))
    K = P['Kcoef'] / ((P['RhoSed'] - P['RhoSea']) * P['Gravity'] * (1 - P['VoidRatio']))
    return -K * wp * math.cos(loc) * sb


STEPS = (0., 4., -4., 25., -25., 90., -90.)
PARS = [{}, dict(WaveDataDepth=20., GammaRatio=0.8), dict(Kcoef=0.1, RhoSea=1010.), dict(VoidRatio=.3, RhoSed=2500., Gravity=9.8)]


def case(c):
    P = phys(**PARS[c['par']])
    dx = c['dx']
    a = c['a'] * DEG
    tr, zero, pos, neg, un = 0, 0, 0, 0, 0
    for st in itertools.product(STEPS, repeat=c['segs']):
        Y = np.full((c['segs'] + 1, 5), np.nan)
        Y[:, 0] = 7 + np.r_[0, np.cumsum(st)]
        Y[:, 3], Y[:, 4] = -60, -80
        keep = Y.copy()
        got = coast.longShoreTransport(Y, dx, c['wp'], c['T'], c['wl'], a, P)
        tr += 1
        if got.shape != (c['segs'],):
            raise Viol('transport given for %s segments' % (got.shape,))
        if not close(Y, keep, 0, 0):
            raise Viol('transport changes the shoreline')
        for i, d in enumerate(st):
            w = segment(d, dx, c['wp'], c['T'], c['wl'], a, P)
            if w is None:
                un += 1
                if abs(abs(a - math.atan2(-d, dx)) - math.pi / 2) < 1e-9 and not abs(got[i]) < 1e-10:
                    raise Viol('transport %g by waves along the shore' % got[i])
                continue
            if not abs(got[i] - w) <= 1e-9 * abs(w) + 1e-16:
                raise Viol('segment %d of %s: transport %.9g, expected %.9g' % (i, st, got[i], w))
            zero += w == 0
            pos += w > 0
            neg += w < 0
    return {'transitions': tr, 'states': [(c['a'], c['wp'], c['par'], c['T'])], 'traces': tr,
            'tags': {'zero': zero, 'rightward': pos, 'leftward': neg, 'not judged': un}}


def spaces(tier):
    big = tier == 'thorough'
    angs = range(-180, 181, 5) if big else list(range(-180, 181, 15)) + [-1, 1, -97, 97, 127, -127]
    yield Space('segments', case, product(a=angs, par=range(len(PARS)), dx=[20., 12.] if big else [20.], segs=[3] if big else [2],
                                          wp=[0., 500., 8000., 60000., 5e5], T=[5., 9.] if big else [8.], wl=[40., 70.] if big else [60.]),
                'every bounded shoreline of straight segments x wave angle round the compass x power', min_active=100)
