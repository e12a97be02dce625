"""C16 breach decision, place and new outlet; then the life cycle of outlets over bounded histories."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.model import same_state, close, phys, nums, times, assemble, Chan, store, td, update
from mc import refmor
from checks import morph

LEVEL = 'model_checking'
ASSUMPTIONS = ['the breach rules are those of the reference model mc/refmor.py, replayed on every explored transition',
               'a breached outlet is required to be accepted as open by the next assembly unless the lagoon on the way is '
               'itself narrower than the minimum after the update']


def judge(a, b, info, P, N, T):
    X = a.ShoreX
    if info['breach'] != info['breach_ref']:
        raise Viol('%s although %s' % ('breach' if info['breach'] else 'no breach', info['events']), got=a.dump(), want=b.dump())
    if not info['breach']:
        return
    if not close(a.OutletEndX, b.OutletEndX):
        raise Viol('breach leaves the outlet from %s to %s, expected %s' % (*a.OutletEndX, b.OutletEndX.tolist()), events=info['events'])
    for f in ('OutletEndWidth', 'OutletEndElev'):
        if not close(getattr(a, f), getattr(b, f)):
            raise Viol('%s after the breach is %g, expected %g' % (f, getattr(a, f), getattr(b, f)))
    if float(a.OutletEndWidth) < 2 * P['MinOutletWidth'] - 1e-12:
        raise Viol('breach outlet is only %g wide' % a.OutletEndWidth)
    i = int(np.argmin(abs(X - a.OutletEndX[1])))
    if not (close(a.ShoreY[i], b.ShoreY[i]) and close(a.ShoreZ[i], b.ShoreZ[i])):
        raise Viol('breach transect is %s %s, expected %s %s' % (a.ShoreY[i], a.ShoreZ[i], b.ShoreY[i], b.ShoreZ[i]), events=info['events'])
    if not np.array_equal(np.isnan(a.ShoreY), np.isnan(b.ShoreY)):
        raise Viol('channels exist at other transects than expected after the breach')
    # the next assembly finds an open outlet
    s = a.copy()
    s.Closed = False
    lagw = a.ShoreY[:, 3] - a.ShoreY[:, 4]
    lo, hi = sorted((s.x0, int(np.argmin(abs(X - a.OutletEndX[0])))))
    inner = [j for j in range(lo, hi + 1) if j != int(np.argmin(abs(X - a.OutletEndX[0]))) or j == s.x0]
    on = [j for j in range(X.size) if min(a.OutletEndX) <= X[j] <= max(a.OutletEndX)]
    ow = [a.ShoreY[j, 1] - a.ShoreY[j, 2] for j in on]
    if all(lagw[j] >= P['MinOutletWidth'] for j in inner) and all(w > P['MinOutletWidth'] for w in ow):
        s.OutletDep[:] = 1.
        s.OutletVel[:] = .1
        c = Chan(assemble(s, P, N))
        if c.Closed:
            raise Viol('the next assembly finds the breach outlet closed')
        if not all(abs(j) < 99 for j in c.OutletChanIx) or len(c.OutletChanIx) == 0:
            raise Viol('no outlet transect after the breach')
    elif not all(w > P['MinOutletWidth'] for w in ow):
        raise Viol('breach outlet passes a transect too narrow to stay open: widths %s' % ow)


def case(c):
    return morph.run_case(c, judge, wl=c['wl'], lagslope=c['slope'])


# ---- histories: water rises and falls, drift closes, storms erode; every prefix judged against the reference
ALPH = {'rise': .9, 'fall': -.9, 'close': 0, 'erode': 0, 'quiet': 0}


def history(c):
    P, T = phys(MinOutletWidth=1.5), times()
    N = nums(MaxMorChange=8.)
    tags, states, tr = {}, set(), 0
    s0 = morph.make(c['outlet'], c['row'], wl=1.2, minw=1.5)
    level0 = 1.2
    front = [(s0, level0, ())]
    for depth in range(c['depth']):
        nxt = []
        for s, wl, path in front:
            for op in ALPH:
                a = s.copy()
                w = wl + ALPH[op]
                if not -.3 < w < 6:
                    continue
                a.LagoonWL[:] = w
                on = ~np.isnan(a.OutletDep)
                ch0 = Chan(assemble(a, P, N))
                a.Closed = bool(ch0.Closed)
                h = np.maximum(ch0.h, .2)
                h[ch0.Flag == 1] = w - a.ShoreZ[ch0.OnlineLagoon.astype(int), 3]
                h[ch0.Flag == 2] = np.maximum(w - .05 - a.ShoreZ[np.asarray(ch0.OutletChanIx, int), 1], .1)
                if np.any(h <= 0):
                    continue
                store(a, ch0, h, ch0.V)
                b = a.copy()
                ch = Chan(assemble(a, P, N))
                n = a.ShoreX.size
                LST, Bed, CST, OW = morph.forcing('q-' if op == 'close' else 'b0', a, ch, P, N, 400.)
                if op == 'close' and a.Closed:
                    LST[:] = 0
                if op == 'erode':
                    CST = np.full(n, .3)
                    CST[::3] = .05
                    OW = np.zeros(n, bool)
                try:
                    dtr, brr, ev = refmor.advance(b, ch, LST, Bed, CST, OW, 60., P, T, N)
                except (ZeroDivisionError, ValueError):
                    continue
                dt, br = update(a, ch, LST, Bed, CST, OW, td(60.), P, T, N)
                tr += 1
                for e in set(ev):
                    tags[e] = tags.get(e, 0) + 1
                try:
                    judge(a, b, dict(breach=bool(br), breach_ref=bool(brr), events=ev), P, N, T)
                except Viol as v:
                    v.data.update(path=path + (op,))
                    raise
                if br:
                    a.Closed = False
                if bad_state(a):
                    continue
                k = (a.key(4), round(w, 3))
                if k not in states:
                    states.add(k)
                    nxt.append((a, w, path + (op,)))
        front = nxt
    return {'transitions': tr, 'states': list(states), 'traces': tr, 'tags': tags}


def bad_state(a):
    Y = a.ShoreY
    ch = ~np.isnan(Y[:, 1])
    return bool(np.any(Y[:, 0] <= Y[:, 3]) or np.any(Y[ch, 0] <= Y[ch, 1]) or np.any(Y[:, 3] < Y[:, 4]))


def spaces(tier):
    big = tier == 'thorough'
    cs = []
    for wl, slope, spec, k, forc, sc in [
            (1.2, 0., 'lTcSN', 2, ['b0', 'lmix', 'bmix'], 30.),
            (1.2, .03, 'lc', 2, ['b0'], 1.),
            (1.2, -.03, 'lcN', 2, ['b0'], 1.),
            (1.2, 0., 'kYc', 2, ['oback'], 30.),
            (1.2, 0., 'sqEo', 2, ['oback', 'lmix'], 30.),
            (3.35, 0., 'LBNOozc', 1, ['b0', 'ocrest'], 1.),
            (3.55, .05, 'LBNTOSzc', 1, ['b0', 'bmix2'], 30.)] + (
            [(1.2, .03, 'lTcSNXGB', 2, ['b0', 'bmix', 'oback'], 30.), (3.3, -.05, 'lLBNTOSzcG', 2, ['b0', 'lmix2'], 30.),
             (1.2, -.02, 'lTcS', 3, ['lmix'], 30.)] if big else []):
        for x in morph.spaces_for('C16', tier, forc, scales=(sc,), pars=(0, 1) if k < 2 or big else (0,), special=spec, k=k):
            cs.append(dict(x, wl=wl, slope=slope))
    yield Space('decision', case, cs, 'every outlet x up to two (thorough: three) low, thin or eroded transects x water level and slope x forcing',
                cpu=600, min_active=len(cs) // 2)
    hs = []
    for o in ([None, ('relic', 1), ('relic', -2), (0, .5), (1, 2.5), (-1, -2.5), (2, .5)] if big else [None, ('relic', 1), (0, .5), (1, 2.5), (-1, -2.5)]):
        base = morph.rows(o, 'L', 0)[0]
        for extra in ('', 'l-1', 'l2', 'T-2'):
            r = list(base)
            if extra:
                i = int(extra[1:]) + morph.HALF
                if r[i] != 'L':
                    continue
                r[i] = extra[0]
            hs.append(dict(outlet=o, row=''.join(r), depth=7 if big else 5))
    yield Space('life cycle', history, hs, 'every sequence of rising, falling, closing and eroding steps from every outlet', cpu=600)
