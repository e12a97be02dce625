"""C13 mirror symmetry: every explored transition is taken in lockstep with its mirror image."""
import itertools
import numpy as np
from mc.run import Space, Viol
from mc.model import (State, NAN, phys, nums, times, td, Chan, assemble, update, mirror, step, steady, layout, Force, same_state, close, riv, coast)
from checks import morph, conf, C23

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'ties are left out: two equally good breach places at equal distance on both sides of the river, and the longshore segment of an outlet '
    'end lying exactly on a transect (only compared without longshore transport there)',
    'a closed lagoon with no relic outlet, or a relic outlet on the river line, has no handedness: bedload is not applied to it']


def chans(a, b, n):
    """Differences between the channel of a state and that of its mirror image."""
    for f in ('dx', 'z', 'B', 'LagArea', 'LagLen', 'h', 'V', 'Flag'):
        if not close(getattr(a, f), getattr(b, f)):
            return '%s is %s, mirrored %s' % (f, getattr(a, f), getattr(b, f))
    if bool(a.Closed) != bool(b.Closed):
        return 'closed %s, mirrored %s' % (a.Closed, b.Closed)
    for f in ('OnlineLagoon', 'OutletChanIx'):
        if not np.array_equal(np.asarray(getattr(a, f), int), n - 1 - np.asarray(getattr(b, f), int)):
            return '%s is %s, mirrored %s' % (f, getattr(a, f), getattr(b, f))


def tie(row, o):
    mids = [0] + ([o[1]] if o is not None and o[0] == 'relic' else [])
    at = lambda i: row[i + morph.HALF] in 'TSsX' if abs(i) <= morph.HALF else False
    return any(at(m + d) and at(m - d) for m in mids for d in range(1, 2 * morph.HALF))


def single(c):
    """One update of every row and of its mirror image."""
    P, N, T = phys(**morph.PARS[c['par']]), nums(), times()
    tags, states, tr = {}, [], 0
    o = c['outlet']
    on_transect = o is not None and o[0] != 'relic' and float(o[1]).is_integer()
    for row in morph.rows(o, c['special'] or morph.TYPES, c['k'])[c['lo']:c['hi']]:
        if tie(row, o):
            tags['tie'] = tags.get('tie', 0) + 1
            continue
        s = morph.make(o, row, minw=P['MinOutletWidth'], wl=c['wl'])
        m = mirror(s)
        n = s.ShoreX.size
        ca, cb = Chan(assemble(s, P, N)), Chan(assemble(m, P, N))
        dead = bool(ca.Closed) and not abs(s.OutletEndX[0]) > 0            # no handedness
        if not dead:
            d = chans(ca, cb, n)
            if d:
                raise Viol('assembly: ' + d, row=row, outlet=o)
        for f in c['forc']:
            if (dead and any(q[0] in 'bp' for q in f.split('&'))) or (on_transect and ('l' in f or 'q' in f)):
                continue
            a, b = s.copy(), m.copy()
            ca, cb = Chan(assemble(a, P, N)), Chan(assemble(b, P, N))
            a.Closed = b.Closed = bool(ca.Closed)
            LST, Bed, CST, OW = morph.forcing(f, a, ca, P, N, c['scale'])
            ra = update(a, ca, LST, Bed, CST, OW, td(c['dt']), P, T, N)
            rb = update(b, cb, -LST[::-1], np.zeros(cb.z.size - 1) if dead else Bed.copy(), CST[::-1].copy(), OW[::-1].copy(), td(c['dt']), P, T, N)
            tr += 1
            if ra[0] != rb[0] or bool(ra[1]) != bool(rb[1]):
                raise Viol('timestep and breach %s, mirrored %s' % (ra, rb), row=row, forcing=f)
            bad = same_state(a, mirror(b), 1e-9, 1e-9)
            if bad:
                raise Viol('differs from its mirror image in %s: %s / %s' % (bad, np.asarray(getattr(a, bad[0])).tolist(),
                           np.asarray(getattr(mirror(b), bad[0])).tolist()), row=row, forcing=f)
            k = 'breach' if ra[1] else 'no breach'
            tags[k] = tags.get(k, 0) + 1
            states.append(a.key())
    return {'transitions': tr, 'states': states, 'traces': tr, 'tags': tags}


STARTS = {
    'right': dict(us=1, ds=2.5, outw=14.), 'left': dict(us=-1, ds=-3.4, outw=9.), 'straight': dict(us=0, ds=.4), 'turning back': dict(us=2, ds=-.6, outw=12.),
    'narrow': dict(us=1, ds=3.45, outw=1.06, endw=1.5, outbed=.2, endbed=.1), 'narrow lagoon': dict(us=2, ds=2.4, lagw=1.1, barrier=90.),
    'low barrier': dict(us=0, ds=.5, endw=3., outw=3., crest=1.6), 'thin barrier': dict(us=1, ds=1.5, barrier=11., spit=3., outw=6., relic=[-2]),
    'shut': dict(us=1, ds=2., closed=True, wl=1.9, crest=2.2, outw=1.6, endw=.4), 'shut left': dict(us=-2, ds=-2., closed=True, wl=2.4, crest=2.5, outw=3., endw=.4)}
FORCES = {'calm': Force(Q=60., sea=.2, wp=0., Hs=.3), 'flood': Force(Q=700., sea=-.4, wp=3e3, dir=-.2),
          'right waves': Force(Q=40., sea=.8, wp=2e5, T=11., wl=100., dir=.5, Hs=3.), 'left waves': Force(Q=40., sea=.8, wp=2e5, T=11., wl=100., dir=-.5, Hs=3.),
          'storm': Force(Q=150., sea=2.1, wp=4e5, T=14., wl=120., dir=.1, Hs=5.5), 'dry': Force(Q=8., sea=-.6, wp=9e4, dir=.3)}


def history(c):
    """Every sequence of forcings from a start state, in lockstep with its mirror image."""
    P, N, T = phys(ShorelineErosionRate=2.), nums(MaxMorChange=c['lim']), times()
    s = layout(**STARTS[c['start']])
    rng = np.arange(s.ShoreX.size)
    s.ShoreY[:, 0] += .8 * np.sin(1.3 * rng + .4)             # no symmetric shoreline
    s.ShoreY[:, 4] -= 1.1 * abs(np.cos(.9 * rng))
    s.ShoreY[s.ShoreY[:, 3] < s.ShoreY[:, 4], 3] = s.ShoreY[s.ShoreY[:, 3] < s.ShoreY[:, 4], 4]
    s.ShoreZ[:, 0] += .06 * np.sin(2.1 * rng)
    if not s.Closed:
        steady(s, P, N, 60., .2)
    n = s.ShoreX.size
    front, tags, states, tr = [(s, mirror(s), td(15.), ())], {}, set(), 0
    for depth in range(c['depth']):
        nxt = []
        for a0, b0, dt, path in front:
            for fn in c['forces']:
                f = FORCES[fn]
                a, b = a0.copy(), b0.copy()
                on = (not a.Closed) and np.any(np.abs(a.ShoreX - a.OutletEndX[1]) < 1e-9)
                if on and f.wp:
                    continue
                what = path + (fn,)
                try:
                    ra = step(a, f, P, N, T, dt)
                except Exception as e:
                    ra = e
                try:
                    rb = step(b, f.mirror(), P, N, T, dt)
                except Exception as e:
                    rb = e
                tr += 1
                if isinstance(ra, Exception) or isinstance(rb, Exception):
                    if type(ra) != type(rb):
                        raise Viol('step: %r, mirrored %r' % (ra, rb), path=what)
                    continue
                d = chans(ra.chan, rb.chan, n) if not (ra.chan.Closed and not (abs(a0.OutletEndX[0]) > 0)) else None
                if d:
                    raise Viol('channel: ' + d, path=what)
                if a.Closed and not abs(a0.OutletEndX[0]) > 0:
                    continue                                   # no handedness
                for nm, x, y in (('bedload', ra.Bed, rb.Bed), ('longshore transport', ra.LST, -rb.LST[::-1]), ('overtopping', ra.CST, rb.CST[::-1]),
                                 ('overwash share', np.asarray(ra.OWP, float), np.asarray(rb.OWP, float)[::-1])):
                    if not close(x, y, 1e-7, 1e-10):
                        raise Viol('%s is %s, mirrored %s' % (nm, x, y), path=what)
                if ra.MorDt != rb.MorDt or bool(ra.Breach) != bool(rb.Breach):
                    raise Viol('timestep and breach %s %s, mirrored %s %s' % (ra.MorDt, ra.Breach, rb.MorDt, rb.Breach), path=what)
                bad = same_state(a, mirror(b), 1e-7, 1e-7)
                if bad:
                    raise Viol('differs from its mirror image in %s: %s / %s' % (bad, np.asarray(getattr(a, bad[0])).tolist(),
                               np.asarray(getattr(mirror(b), bad[0])).tolist()), path=what)
                tags[('closed' if a.Closed else 'open') + (' breach' if ra.Breach else '')] = tags.get(('closed' if a.Closed else 'open') + (' breach' if ra.Breach else ''), 0) + 1
                k = a.key()
                if k not in states:
                    states.add(k)
                    nxt.append((a, b, ra.MorDt, what))
        front = nxt
    return {'transitions': tr, 'states': list(states), 'traces': tr, 'tags': tags}


def flip(p):
    return np.asarray(p, float) * [-1., 1.]


def loaded(c):
    """Initial grid of lines and of their mirror image, supplied at any bearing."""
    IC = C23.ICS[c['ic']]
    over = dict(conf.SPATIAL)
    over.update({'InitialConditions.' + k: v for k, v in IC.items()})
    shore, back, cliff, outlet = C23.lines(c['shape'], C23.OUTL[c['outlet']], C23.LAGS[c['lag']], c['off'])
    got = []
    for m in (0, 1):
        g = flip if m else (lambda p: np.asarray(p, float))
        with conf.Scratch() as d:
            conf.shapes(d, g(shore), g([[0., -150.]])[0], g(back), g(cliff), g(outlet), conf.rotate(np.deg2rad(c['bear'][m]), (431., -977.)))
            got.append(conf.load(conf.setup(d, conf.config(**over))))
    a, b = got
    pairs = [('ShoreX', a.ShoreX, -b.ShoreX[::-1]), ('ShoreY', a.ShoreY, b.ShoreY[::-1]), ('ShoreZ', a.ShoreZ, b.ShoreZ[::-1]),
             ('OutletEndX', a.OutletEndX, -b.OutletEndX), ('OutletEndWidth', a.OutletEndWidth, b.OutletEndWidth),
             ('OutletEndElev', a.OutletEndElev, b.OutletEndElev), ('RiverElev', a.RiverElev, b.RiverElev)]
    for nm, x, y in pairs:
        if not close(x, y, 0, 1e-6 if c['shape'] == 'flat' else 1e-5):
            raise Viol('%s is %s, mirrored %s' % (nm, np.asarray(x).tolist(), np.asarray(y).tolist()))
    return {'transitions': 1, 'traces': 1, 'states': [np.round(a.ShoreY, 4).tobytes()]}


def default(c):
    got = []
    for l, r in ((c['L'], c['R']), (c['R'], c['L'])):
        with conf.Scratch() as d:
            got.append(conf.load(conf.setup(d, conf.config(**{'SpatialInputs.ShorelineLengthLeft': l, 'SpatialInputs.ShorelineLengthRight': r, 'NumericalParameters.Dx': c['dx']}))))
    a, b = got
    for nm, x, y in [('ShoreX', a.ShoreX, -b.ShoreX[::-1]), ('ShoreY', a.ShoreY, b.ShoreY[::-1]), ('ShoreZ', a.ShoreZ, b.ShoreZ[::-1])]:
        if not close(x, y):
            raise Viol('%s is %s, mirrored %s' % (nm, x.tolist(), y.tolist()))
    return {'transitions': 1, 'traces': 1, 'states': [a.ShoreX.tobytes()]}


def spaces(tier):
    big = tier == 'thorough'
    # one of each mirrored pair of outlets is enough: the other is its image
    outs = [o for o in morph.OUTLETS if o is None or o[0] == 'relic' or o[0] > 0 or (o[0] == 0 and o[1] >= 0)]
    mk = lambda forc, k, sp, pars, scales: [dict(x, wl=w) for x in morph.spaces_for('C13', tier, forc, scales=scales, pars=pars, outlets=outs, special=sp, k=k) for w in (1.2,)]
    F = ['bmix', 'lmix', 'lmix2', 'q+', 'q-', 'oalt', 'oback&lmix2&bmix2', 'otla&bmix', 'p--1&q+']
    yield Space('single updates', single, mk(F, 1, None, (0, 1), (1., 30.)) + (mk(F, 2, 'TCSGXZlcoBN', (0, 1), (1., 30.)) if big else mk(F[2:3] + F[6:7], 2, 'TSGXZlc', (0,), (30.,))),
                'every outlet x transect rows x transport, each with its mirror image', cpu=300)
    fo = list(FORCES)
    yield Space('histories', history, [dict(start=s, lim=l, depth=5 if big else 3, forces=[f] if False else fo) for s in STARTS for l in ((.1, .02) if big else (.1,))],
                'every sequence of forcings from every start, in lockstep', cpu=1500)
    g = C23.OUTL
    yield Space('initial grid', loaded, [dict(shape=s, outlet=o, lag=l, ic=i, off=0., bear=b) for s in ('flat', 'wave', 'tilt') for o in g for l in range(3)
                                         for i in ((0, 1) if big else (l % 2,)) for b in ([(0., 0.), (33., 75.), (262., 118.)] if big else [(0., 0.)])
                                         if s == 'flat' or b[0] == b[1]],
                'lines and their mirror image', cpu=100)
    yield Space('default grid', default, [dict(L=l, R=r, dx=dx) for l in (60, 100, 130, 47.) for r in (80, 95.5, 200) for dx in (10, 20, 7.5)], 'domain lengths swapped')
