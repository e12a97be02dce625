"""C07 closure decision over every pattern of narrow, just wide enough and wide sections."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, assemble, Chan
from checks.assembly import distinct_layout, positions, reference
from checks.C05 import compare

LEVEL = 'model_checking'
ASSUMPTIONS = ['the lagoon at the river is at least the minimum width (kept so by the morphology, C14)']
EPS = 1 / 64      # all coordinates are dyadic, so widths are exact however they are computed


def case(c):
    half, dx, minw = 3, 20., c['minw']
    P, N = phys(MinOutletWidth=minw), nums(Dx=dx)
    us, ds = c['pos']
    n = 2 * half + 1
    base = distinct_layout(half, dx, us, ds, np.ones(n, bool), False)
    side = np.sign(us) or np.sign(ds - us) or 1
    on = [i for i in range(n) if min(us, ds) * dx <= base.ShoreX[i] <= max(us, ds) * dx]
    i0 = base.x0
    lagon = [i for i in range(n) if 0 < (i - i0) * np.sign(us) and abs(i - i0) < abs(us)]
    other = i0 - int(side)                       # a lagoon transect off the path must not matter
    tr, nclosed = 0, 0
    states = []
    W = (minw - EPS, minw, minw + EPS, 9.)
    for ow in itertools.product(W + ((None,) if c['missing'] else ()), repeat=len(on)):
        for lw in itertools.product(W + (0.,), repeat=len(lagon)):
            for ew in W:
                s = base.copy()
                for i, w in zip(on, ow):
                    if w is None:
                        s.ShoreY[i, 1:3] = np.nan
                    else:
                        s.ShoreY[i, 2] = s.ShoreY[i, 1] - w
                for i, w in zip(lagon, lw):
                    s.ShoreY[i, 4] = s.ShoreY[i, 3] - w
                s.ShoreY[other, 4] = s.ShoreY[other, 3] - c['off']
                s.OutletEndWidth = np.asarray(float(ew))
                # widths as the code will see them, after rounding in the coordinates
                got_o = [s.ShoreY[i, 1] - s.ShoreY[i, 2] for i in on]
                got_l = [s.ShoreY[i, 3] - s.ShoreY[i, 4] for i in lagon]
                want = any(not w > minw for w in got_o) or ew <= minw or any(w < minw for w in got_l)
                ch = Chan(assemble(s, P, N))
                tr += 1
                nclosed += want
                if bool(ch.Closed) != want:
                    raise Viol('outlet %s although widths are: outlet %s, end %s, lagoon %s'
                               % ('closes' if ch.Closed else 'stays open', got_o, ew, got_l))
                bad = compare(ch, reference(s, P, dx))
                if bad:
                    raise Viol(bad, outlet=got_o, end=ew, lagoon=got_l)
                if ch.Closed and ch.V[-1] != 0:
                    raise Viol('water still moves at the closed end')
                states.append((c['pos'], want, tuple(ch.OnlineLagoon)))
    return {'transitions': tr, 'states': states, 'traces': tr, 'tags': {'closed': nclosed, 'open': tr - nclosed}}


def closed_case(c):
    """A closed state stays closed whatever the widths; its channel ends before the first narrow lagoon transect."""
    half, dx = 3, 20.
    P, N = phys(MinOutletWidth=c['minw']), nums(Dx=dx)
    us = c['us']
    n = 2 * half + 1
    base = distinct_layout(half, dx, us, None if us is None else us, np.ones(n, bool), True)
    i0 = base.x0
    tr = 0
    for lw in itertools.product((0., c['minw'] - EPS, c['minw'], 7.), repeat=n - 1):
        s = base.copy()
        for i, w in zip([i for i in range(n) if i != i0], lw):
            s.ShoreY[i, 4] = s.ShoreY[i, 3] - w
        ch = Chan(assemble(s, P, N))
        tr += 1
        if not ch.Closed:
            raise Viol('a closed lagoon opened at assembly')
        bad = compare(ch, reference(s, P, dx))
        if bad:
            raise Viol(bad, lagoon=lw)
    return {'transitions': tr, 'states': tr, 'traces': tr}


def spaces(tier):
    big = tier == 'thorough'
    pos = [(0, 0), (0, .5), (0, -1.25), (1, 1), (1, 2.), (1, .5), (-1, -1.5), (-1, -2), (2, 2.), (2, 1.5), (-2, -2.), (2, 1), (-2, -1)]
    if big:
        pos = positions(3, False)
    yield Space('open', case, [dict(pos=p, minw=m, off=o, missing=big) for p in pos for m in ((1., 2.5) if big else (1.,))
                               for o in (0., .5, 30.)],
                'every combination of section widths around the minimum on every outlet path', cpu=300)
    yield Space('closed', closed_case, [dict(us=u, minw=m) for u in (None, 0, 1, -1, 2, -2) for m in (1., 2.5)],
                'every lagoon width pattern of a closed state', cpu=300)
