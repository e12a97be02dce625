"""C05 channel assembly against a reference written from the documentation."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, assemble, Chan, close, product
from checks.assembly import distinct_layout, positions, reference

LEVEL = 'model_checking'
ASSUMPTIONS = ['outlet upstream ends lie on transects, as the initialisation and the updates place them',
               'for a closed lagoon without an outlet position either side may be online']


def compare(c, refs):
    why = []
    for r in refs:
        bad = None
        if bool(c.Closed) != r['closed']:
            bad = 'closed is %s, expected %s' % (bool(c.Closed), r['closed'])
        elif list(map(int, c.OnlineLagoon)) != r['lag']:
            bad = 'online lagoon %s, expected %s' % (list(c.OnlineLagoon), r['lag'])
        elif list(map(int, c.OutletChanIx)) != r['out']:
            bad = 'online outlet %s, expected %s' % (list(c.OutletChanIx), r['out'])
        else:
            for name, got, want in (('flags', c.Flag, r['flag']), ('bed levels', c.z, r['elev']), ('widths', c.B, r['width']),
                                    ('distances', c.dx, r['dx']), ('storage areas', c.LagArea, r['area']),
                                    ('lagoon lengths', c.LagLen, r['length'])):
                if not close(got, want):
                    bad = '%s are %s, expected %s' % (name, np.asarray(got).tolist(), want)
                    break
        if bad is None:
            return None
        why.append(bad)
    return why[0]


def case(c):
    half, dx = c['half'], c['dx']
    tr, states = 0, []
    P, N = phys(MinOutletWidth=c['minw'], MaxOutletElev=c['maxelev']), nums(Dx=dx)
    n = 2 * half + 1
    for bits in itertools.product([0, 1], repeat=n - 1):
        lag = np.array(bits[:half] + (1,) + bits[half:], bool)
        us, ds = c['pos'] if c['pos'] else (None, None)
        s = distinct_layout(half, dx, us, ds, lag, c['closed'], c['nriv'])
        want = reference(s, P, dx)
        ch = Chan(assemble(s, P, N))
        bad = compare(ch, want)
        tr += 1
        if bad:
            raise Viol(bad, lagoon=bits)
        # total lagoon plan area and length appear exactly once
        w = s.ShoreY[:, 3] - s.ShoreY[:, 4]
        on = ch.Flag == 1
        if abs(np.sum(ch.B[on]) * dx + ch.LagArea.sum() - np.sum(w) * dx) > 1e-6:
            raise Viol('lagoon area online plus attached is %g, the lagoon has %g'
                       % (np.sum(ch.B[on]) * dx + ch.LagArea.sum(), np.sum(w) * dx), lagoon=bits)
        if abs(ch.LagLen.sum() - dx * np.sum(w > 0)) > 1e-6:
            raise Viol('lagoon length %g, the lagoon has %g' % (ch.LagLen.sum(), dx * np.sum(w > 0)), lagoon=bits)
        states.append((c['pos'], c['closed'], bits))
    return {'transitions': tr, 'states': states, 'traces': tr}


def spaces(tier):
    big = tier == 'thorough'
    half = 4 if big else 3
    cs = []
    for dx in ([10., 20., 25.] if big else [20., 25.]):
        for closed in (False, True):
            for pos in positions(half, big) + ([None] if closed else []):
                for nriv in ([1, 2, 3] if big else [1, 3]):
                    cs.append(dict(half=half, dx=dx, pos=pos, closed=closed, nriv=nriv, minw=1.0,
                                   maxelev=-1.5 if nriv == 1 else -2.))
    yield Space('assemble', case, cs, 'every outlet position and direction x open/closed x every subset of lagoon transects')
