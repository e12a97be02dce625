"""C06 storing hydraulics into the transects and assembling the channel again."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, assemble, Chan, store, close, product, NAN
from mc.repo import riv
from checks.assembly import distinct_layout, positions

LEVEL = 'model_checking'
ASSUMPTIONS = ['geometry identical between storing and assembling, except where a section is added on purpose']
DX = 20.


def profile(n):
    return 1.3 + .17 * np.arange(n) + .05 * (np.arange(n) % 3), .9 - .06 * np.arange(n) + .1 * (np.arange(n) % 2)


def fill(known, x):
    """Piecewise linear in section number between the nearest known sections, constant beyond them."""
    x = np.array(x, float)
    ks = [i for i in range(x.size) if known[i]]
    for i in range(x.size):
        if not known[i]:
            lo, hi = [k for k in ks if k < i], [k for k in ks if k > i]
            if lo and hi:
                a, b = lo[-1], hi[0]
                x[i] = x[a] + (x[b] - x[a]) * (i - a) / (b - a)
            else:
                x[i] = x[lo[-1]] if lo else x[hi[0]]
    return x


def check_stored(s, c, h, V, shallow=None):
    """Everything stored where the documentation says."""
    n = s.ShoreX.size
    on = list(map(int, c.OnlineLagoon))
    wl = s.ShoreZ[:, 3].copy()
    lv = np.full(n, NAN)
    od, ov = np.full(n, NAN), np.full(n, NAN)
    lagrows = np.where(c.Flag == 1)[0]
    for r, i in zip(lagrows, on):
        wl[i] += h[r]
        lv[i] = V[r]
    for i in range(n):
        if i < min(on):
            wl[i] = wl[min(on)]
        if i > max(on):
            wl[i] = wl[max(on)]
    for r, i in zip(np.where(c.Flag == 2)[0], map(int, c.OutletChanIx)):
        od[i], ov[i] = h[r], V[r]
    e = np.where(c.Flag >= 3)[0]
    ed = h[e] if e.size else np.full(2, NAN)
    ev = V[e] if e.size else np.full(2, NAN)
    for name, got, want in (('lagoon levels', s.LagoonWL, wl), ('lagoon velocities', s.LagoonVel, lv), ('outlet depths', s.OutletDep, od),
                            ('outlet velocities', s.OutletVel, ov), ('outlet end depths', s.OutletEndDep, ed),
                            ('outlet end velocities', s.OutletEndVel, ev), ('river depths', s.RivDep, h[c.Flag == 0]),
                            ('river velocities', s.RivVel, V[c.Flag == 0])):
        if not close(got, want):
            raise Viol('%s stored as %s, expected %s' % (name, np.asarray(got).tolist(), np.asarray(want).tolist()))


def start(c, lag):
    us, ds = c['pos'] if c['pos'] else (None, None)
    s = distinct_layout(3, DX, us, ds, lag, c['closed'])
    P, N = phys(), nums(Dx=DX)
    ch = Chan(assemble(s, P, N))
    h, V = profile(ch.z.size)
    if ch.Closed:
        V[-1] = 0
    keep = (ch.Flag.copy(), ch.OnlineLagoon.copy(), h.copy(), V.copy())
    store(s, ch, h, V)
    s.Closed = bool(ch.Closed)
    if not (close(h, keep[2]) and close(V, keep[3]) and np.array_equal(ch.Flag, keep[0]) and np.array_equal(ch.OnlineLagoon, keep[1])):
        raise Viol('storing changed its inputs')
    return s, ch, h, V, P, N


def round_trip(c):
    tr = 0
    for bits in itertools.product([0, 1], repeat=6):
        lag = np.array(bits[:3] + (1,) + bits[3:], bool)
        s, ch, h, V, P, N = start(c, lag)
        check_stored(s, ch, h, V)
        for again in range(2):
            c2 = Chan(assemble(s, P, N))
            tr += 1
            if not (np.array_equal(c2.Flag, ch.Flag) and close(c2.h, h, 1e-12, 1e-12) and close(c2.V, V, 1e-12, 1e-12)):
                raise Viol('assembling again gives depths %s velocities %s, stored %s %s'
                           % (c2.h.tolist(), c2.V.tolist(), h.tolist(), V.tolist()), lagoon=bits)
            store(s, c2, c2.h, c2.V)
    return {'transitions': tr, 'states': [(c['pos'], c['closed'])], 'traces': tr}


def lengthen(c):
    """The outlet end moves past new transects between storing and assembling."""
    lag = np.ones(7, bool)
    s, ch, h, V, P, N = start(dict(pos=c['pos'], closed=False), lag)
    if ch.Closed:
        return {'skipped': 'closed'}
    us, ds = c['pos']
    new = ds + c['move']
    if abs(new) > 2.6 or (us < ds) != (us < new):
        return {'skipped': 'turns round'}
    old = set(map(int, ch.OutletChanIx))
    s.OutletEndX[1] = new * DX
    idx = [i for i in range(7) if min(us, new) * DX <= s.ShoreX[i] <= max(us, new) * DX]
    for i in idx:
        if i not in old:
            s.ShoreY[i, 1], s.ShoreY[i, 2] = s.ShoreY[i, 0] - 10, s.ShoreY[i, 0] - 23
            s.ShoreZ[i, 1], s.ShoreZ[i, 2] = -1.6, 4.
    c2 = Chan(assemble(s, P, N))
    order = [('r', k) for k in range(2)] + [('l', int(i)) for i in c2.OnlineLagoon] + [('o', int(i)) for i in c2.OutletChanIx] + ['e', 's']
    src = {}
    for k, name in enumerate([('r', k) for k in range(2)] + [('l', int(i)) for i in ch.OnlineLagoon]
                             + [('o', int(i)) for i in ch.OutletChanIx] + ['e', 's']):
        src[name] = k
    return judge(c2, order, src, h, V)


def judge(c2, order, src, h, V, levels={}):
    if len(order) != c2.z.size:
        raise Viol('channel has %d sections, expected %d' % (c2.z.size, len(order)))
    known = [o in src for o in order]
    hh = np.array([h[src[o]] if o in src else levels.get(o, NAN) for o in order])
    hknown = [not np.isnan(x) for x in hh]
    hh = fill(hknown, hh)
    vv = np.array([V[src[o]] if o in src else NAN for o in order])
    if c2.Closed:
        vv[-1], known[-1] = 0.0, True
    q = fill(known, np.where(known, hh * vv, 0.))
    vv = np.where(known, vv, q / hh)
    if not close(c2.h, hh):
        raise Viol('depths %s, expected %s (new sections %s)' % (c2.h.tolist(), hh.tolist(), [o for o, k in zip(order, known) if not k]))
    if not close(c2.V, vv):
        raise Viol('velocities %s, expected %s (new sections %s)' % (c2.V.tolist(), vv.tolist(), [o for o, k in zip(order, known) if not k]))
    return {'transitions': 2, 'states': [(tuple(map(str, order)), tuple(known))], 'traces': 1,
            'tags': {'new sections': sum(not k for k in known)}}


def move_upstream(c):
    """The lagoon end of the outlet moves along the channel: transects join the lagoon and take its level."""
    s, ch, h, V, P, N = start(dict(pos=c['pos'], closed=False), np.ones(7, bool))
    us, ds = c['pos']
    sg = 1 if us < ds else -1
    new = us + sg * c['move']
    if (new - ds) * sg > 0 or len(ch.OutletChanIx) <= c['move'] or us * sg < 0:
        return {'skipped': 'no outlet left or towards the river'}
    s.OutletEndX[0] = new * DX
    c2 = Chan(assemble(s, P, N))
    order = [('r', 0), ('r', 1)] + [('l', int(i)) for i in c2.OnlineLagoon] + [('o', int(i)) for i in c2.OutletChanIx] + ['e', 's']
    src = {n: k for k, n in enumerate([('r', 0), ('r', 1)] + [('l', int(i)) for i in ch.OnlineLagoon]
                                      + [('o', int(i)) for i in ch.OutletChanIx] + ['e', 's'])}
    # a new lagoon section takes the water level of the nearest section that was online
    levels = {}
    on = list(map(int, ch.OnlineLagoon))
    for o in order:
        if o[0] == 'l' and o not in src:
            near = min(on, key=lambda i: abs(i - o[1]))
            levels[o] = s.ShoreZ[near, 3] + h[src[('l', near)]] - s.ShoreZ[o[1], 3]
    if any(v <= 0 for v in levels.values()):
        return {'skipped': 'dry'}
    return judge(c2, order, src, h, V, levels)


def reopen(c):
    """A closed channel, then a breach: the outlet sections and the end are new."""
    s, ch, h, V, P, N = start(dict(pos=None, closed=True), np.array(c['lag'], bool))
    i = s.x0 + c['at']
    s.Closed = False
    s.OutletEndX[:] = c['at'] * DX
    s.ShoreY[i, 1], s.ShoreY[i, 2], s.ShoreZ[i, 1], s.ShoreZ[i, 2] = s.ShoreY[i, 0] - 10, s.ShoreY[i, 0] - 20, -1.2, 3.
    c2 = Chan(assemble(s, P, N))
    if c2.Closed:
        return {'skipped': 'not connected'}
    on = list(map(int, ch.OnlineLagoon))
    order = [('r', 0), ('r', 1)] + [('l', int(k)) for k in c2.OnlineLagoon] + [('o', int(k)) for k in c2.OutletChanIx] + ['e', 's']
    src = {n: k for k, n in enumerate([('r', 0), ('r', 1)] + [('l', k) for k in on])}
    levels = {}
    for o in order:
        if o[0] == 'l' and o not in src:
            near = min(on, key=lambda k: abs(k - o[1]))
            levels[o] = s.ShoreZ[near, 3] + h[src[('l', near)]] - s.ShoreZ[o[1], 3]
    return judge(c2, order, src, h, V, levels)


def only_end(c):
    """Post-processing: records hold the outlet end without the sea section."""
    s, ch, h, V, P, N = start(dict(pos=c['pos'], closed=False), np.ones(7, bool))
    s.OutletEndDep, s.OutletEndVel = s.OutletEndDep[:1], s.OutletEndVel[:1]
    c2 = Chan(assemble(s, P, N))
    if not (close(c2.h[:-1], h[:-1]) and close(c2.V[:-1], V[:-1]) and close(c2.h[-1], h[-2]) and close(c2.V[-1], V[-2])):
        raise Viol('channel from a record: %s %s' % (c2.h.tolist(), c2.V.tolist()))
    return {'transitions': 1, 'states': [c['pos']], 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    pos = positions(3, big)
    yield Space('round trip', round_trip, [dict(pos=p, closed=cl) for p in pos for cl in (False, True)] + [dict(pos=None, closed=True)],
                'every outlet position, open or closed, every subset of lagoon transects, stored and assembled twice')
    yield Space('outlet end moves', lengthen, product(pos=pos, move=[-2, -1, -.5, -.25, .25, .5, 1., 1.5, 2, 3]),
                'the outlet end moves by every bounded distance in between', min_active=20)
    yield Space('lagoon end moves', move_upstream, product(pos=positions(3, True), move=[1, 2, 3]), 'outlet transects become lagoon', min_active=5)
    yield Space('breach', reopen, product(at=[-2, -1, 0, 1, 2], lag=[tuple(b[:3] + (1,) + b[3:]) for b in itertools.product([0, 1], repeat=6)]),
                'breach of a closed lagoon at every transect, every subset of lagoon transects', min_active=40)
    yield Space('recorded end', only_end, product(pos=pos), 'outlet end without sea section')
