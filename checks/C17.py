"""C17 outlet end migration, extension and domain limit."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.model import close, phys, nums, times, assemble, Chan, store, td, update
from mc import refmor
from checks import morph

LEVEL = 'model_checking'
ASSUMPTIONS = ['the reference model mc/refmor.py states the migration rules; it is replayed on every explored transition']


def judge(a, b, info, P, N, T):
    X = a.ShoreX
    if info['closed']:
        return
    if not (X[1] - 1e-9 <= a.OutletEndX[1] <= X[-2] + 1e-9):
        raise Viol('outlet end leaves the domain: %g' % a.OutletEndX[1])
    for f in ('OutletEndX', 'OutletEndWidth', 'OutletEndElev'):
        if not close(getattr(a, f), getattr(b, f)):
            raise Viol('%s becomes %s, expected %s' % (f, getattr(a, f), getattr(b, f)), events=info['events'])
    was = ~np.isnan(info['before'].ShoreY[:, 1])
    now, exp = ~np.isnan(a.ShoreY[:, 1]), ~np.isnan(b.ShoreY[:, 1])
    if not np.array_equal(now & ~was, exp & ~was):
        raise Viol('new channel transects %s, expected %s' % (X[now & ~was], X[exp & ~was]))
    for i in np.where(now & ~was)[0]:
        if not (close(a.ShoreY[i], b.ShoreY[i]) and close(a.ShoreZ[i], b.ShoreZ[i])):
            raise Viol('new channel at X=%g is %s %s, expected %s %s' % (X[i], a.ShoreY[i], a.ShoreZ[i], b.ShoreY[i], b.ShoreZ[i]))
        if not info['breach'] and 'channel pushed landward' not in info['events']:
            w = a.ShoreY[i, 1] - a.ShoreY[i, 2]
            if not close(w, a.OutletEndWidth) or not close(a.ShoreZ[i, 1], a.OutletEndElev) \
                    or not close(a.ShoreY[i, 0] - a.ShoreY[i, 1], P['SpitWidth']):
                raise Viol('new channel at X=%g has width %g, bed %g and spit %g' % (X[i], w, a.ShoreZ[i, 1], a.ShoreY[i, 0] - a.ShoreY[i, 1]))
    # drift reaching the outlet adds nothing to the far shore
    r = int(np.where(X > info['before'].OutletEndX[1])[0][0])
    q = info['LST'][r - 1]
    if not set(info['events']) and not info['breach']:
        for i in (r - 1, r):
            if not close(a.ShoreY[i, 0], b.ShoreY[i, 0]):
                raise Viol('shoreline next to the outlet (X=%g) is %g, expected %g' % (X[i], a.ShoreY[i, 0], b.ShoreY[i, 0]), drift=q)


def case(c):
    return morph.run_case(c, judge)


def history(c):
    """Sequences of strong drift to either side, end erosion and deposition, with moves of several metres."""
    P, T = phys(**morph.PARS[c['par']]), times()
    N = nums(MaxMorChange=7.)
    o = c['outlet']
    on = morph.online(*o)
    s0 = morph.make(o, morph.rows(o, 'L', 0)[0], minw=P['MinOutletWidth'], endw=c['endw'])
    front, tags, states, tr = [(s0, ())], {}, set(), 0
    for depth in range(c['depth']):
        nxt = []
        for s, path in front:
            for op in ('q+', 'q-', 'q+&p--1', 'p--1', 'p+-2'):
                a = s.copy()
                ch0 = Chan(assemble(a, P, N))
                if ch0.Closed:
                    continue
                store(a, ch0, ch0.h, ch0.V)
                if bad(a):
                    continue
                b, before = a.copy(), a.copy()
                ch = Chan(assemble(a, P, N))
                LST, Bed, CST, OW = morph.forcing(op, a, ch, P, N, c['scale'])
                dtr, brr, ev = refmor.advance(b, ch, LST, Bed, CST, OW, 60., P, T, N)
                dt, br = update(a, ch, LST, Bed, CST, OW, td(60.), P, T, N)
                tr += 1
                for e in set(ev) or {'plain'}:
                    tags[e] = tags.get(e, 0) + 1
                try:
                    judge(a, b, dict(breach=bool(br), breach_ref=bool(brr), events=ev, closed=False, before=before, LST=LST), P, N, T)
                except Viol as v:
                    v.data.update(path=path + (op,))
                    raise
                if br:
                    continue
                k = a.key(3)
                if k not in states:
                    states.add(k)
                    nxt.append((a, path + (op,)))
        front = nxt
    return {'transitions': tr, 'states': list(states), 'traces': tr, 'tags': tags}


def bad(a):
    Y = a.ShoreY
    ch = ~np.isnan(Y[:, 1])
    return bool(np.any(Y[:, 0] <= Y[:, 3]) or np.any(Y[ch, 0] <= Y[ch, 1]) or np.any(Y[:, 3] < Y[:, 4])
                or np.any(a.LagoonWL - a.ShoreZ[:, 3] <= 0) or float(a.OutletEndElev) > 1.
                or np.any(a.ShoreZ[ch, 1] > np.minimum(a.ShoreZ[ch, 0], a.ShoreZ[ch, 2]) - 1))     # bed up to the crest: not a channel


def spaces(tier):
    big = tier == 'thorough'
    op = [o for o in morph.OUTLETS if o and o[0] != 'relic']
    more = [(a, b) for a in (-3, -2, -1, 0, 1, 2, 3) for b in (-3., -2.9985, -2.5, -1.5, -1., -.9985, -.5, 0., .25, .9985, 1., 1.75, 2., 2.9985, 3.)]
    F = ['q+', 'q-', 'lmix', 'lmix2', 'bmix', 'p+-1', 'p--1', 'p+-2', 'p--2', 'q+&p--2', 'q-&p+-2&oback', 'lup&bup']
    yield Space('single updates', case, morph.spaces_for('C17', tier, F, scales=(.05, 1., 30., 1000.) if big else (1., 30., 1000.), pars=(0, 1, 2), outlets=op + (more if big else more[::2]),
                                                         special='L' if not big else 'LBOcS', k=1, dts=(60.,) if not big else (15., 60., 3840.)),
                'every outlet position and direction x drift, bedload and overtopping x strength', cpu=300)
    yield Space('histories', history, [dict(outlet=o, par=p, scale=sc, endw=e, depth=6 if big else 4) for o in
                                       [(0, .5), (0, -.5), (1, 1), (1, 1.6), (-1, -2.5), (2, .5), (-2, -2.9)] for p in (0, 1) for sc in (60., 300.) for e in (14., 30.)],
                'every sequence of strong drift and end erosion steps', cpu=600)
