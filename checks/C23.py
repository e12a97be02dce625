"""C23 initial grid from supplied lines, any orientation, shift and digitising direction."""
import itertools
import numpy as np
import pandas as pd
from mc.run import Space, Viol
from mc.model import close
from checks import conf

LEVEL = 'model_checking'
ASSUMPTIONS = ['lines cross every transect once (the backshore and cliff polylines may cross more often, the seaward crossing counts)',
               'bearings at which the fitted shoreline is vertical on the map are left out (a straight line y(x) cannot represent them)']
DX = 20.


def lines(shape, outlet, lag, off=0., bluff=False):
    """Local lines (x to the right, y to sea); the fitted baseline need not be y = 0."""
    wig = {'flat': lambda x: 0. * x, 'wave': lambda x: 6 * np.sin(x / 70.) + 3 * np.cos(x / 31.), 'tilt': lambda x: .05 * x + 4 * np.sin(x / 55.)}[shape]
    xs = np.array([-233., -190., -141., -77., -12., 44., 93., 151., 207., 271.]) + off
    shore = np.column_stack([xs, wig(xs)])
    f = lambda x: np.interp(x, xs, shore[:, 1])
    lo, hi = lag
    bx = np.array([lo, lo + 7., lo + 31., (lo + hi) / 2 - 3., hi - 33., hi - 5., hi])
    back = np.column_stack([bx, f(bx) - np.array([95., 62., 58., 66., 60., 64., 97.])])
    back = np.vstack([back, [[(lo + hi) / 2, float(f((lo + hi) / 2)) - 98.]], back[:1]])             # closed polygon
    cx = np.array([-260., -120., -20., 60., 140., 300.]) + off
    cliff = np.column_stack([cx, np.array([-100., -112., -108., -115., -109., -101.]) + .02 * cx])
    if bluff:           # headlands: the cliff line doubles back, so that transects meet it several times
        cliff = np.vstack([cliff[:3], np.array([[47., -112.], [26., -101.], [58., -97.]]) + [off, 0.], cliff[4:5],
                           np.array([[168., -118.], [133., -131.], [190., -137.]]) + [off, 0.], cliff[5:]])
    return shore, back, cliff, np.array(outlet, float)


def grid(shore, back, cliff, outlet, IC, phys):
    """Reference: grid in a coordinate system whose x axis is the fitted baseline, origin abreast of the river."""
    X = np.arange(np.ceil(shore[0, 0] / DX), shore[-1, 0] / DX) * DX
    n = X.size
    Y, Z = np.full((n, 5), np.nan), np.full((n, 4), np.nan)
    def cross(l, x):
        out = []
        for (a, b), (c, d) in zip(l[:-1], l[1:]):
            if (a < x) != (c < x):
                out.append(b + (x - a) * (d - b) / (c - a))
        return out
    W = IC['OutletWidth']
    for i, x in enumerate(X):
        Y[i, 0] = cross(shore, x)[0]
        Y[i, 4] = max(cross(cliff, x))
        b = cross(back, x)
        Y[i, 3] = max(b) if back[:, 0].min() < x < back[:, 0].max() else Y[i, 4]
        if outlet[:, 0].min() < x < outlet[:, 0].max():
            o, = cross(outlet, x)
            if o - W / 2 > Y[i, 3] and o + W / 2 < Y[i, 0]:
                Y[i, 1], Y[i, 2] = o + W / 2, o - W / 2
    o = outlet if outlet[0, 1] <= outlet[-1, 1] else outlet[::-1]
    right = o[0, 0] < o[-1, 0]
    on = ~np.isnan(Y[:, 1])
    if not on.any():
        m = o[:, 0].mean()
        u = np.floor(m / DX) * DX if right else (np.floor(m / DX) + 1) * DX
        i = int(np.where(np.isclose(X, u))[0][0])
        on[i] = True
        Y[i, 1] = min(Y[i, 0] - phys['SpitWidth'], (Y[i, 0] + Y[i, 3]) / 2 + W / 2)
        Y[i, 2] = Y[i, 1] - W
        Y[i, 3] = min(Y[i, 2] - .001, Y[i, 3])
    ends = np.array([X[on][0], X[on][-1] + DX / 2]) if right else np.array([X[on][-1], X[on][0] - DX / 2])
    k = on.sum()
    bed = IC['LagoonBed'] + (IC['OutletBed'] - IC['LagoonBed']) * np.arange(k + 1) / k
    Z[on, 1] = bed[:-1] if right else bed[:-1][::-1]
    Z[:, 0] = IC['BarrierElev']
    Z[on, 2] = IC['BarrierElev']
    Z[:, 3] = IC['LagoonBed']
    return X, Y, Z, ends, W, bed[-1]


OUTL = {'straight right': [(1., -90.), (9., 40.)], 'straight left': [(18., -90.), (11., 40.)],
        'right': [(-20., -90.), (-8., -40.), (21., -33.), (65., -30.), (72., 30.)],
        'left': [(30., -90.), (22., -40.), (-15., -33.), (-55., -28.), (-63., 30.)],
        'hooked': [(-17., -45.), (-9., -88.), (1., -90.), (5., -88.), (25., -40.), (66., -33.), (72., 30.)],
        'overshoot': [(30., -90.), (22., -40.), (-15., -33.), (-55., -28.), (-63., 45.), (-66., 8.), (-68., -20.)],
        'far right': [(35., -80.), (45., -38.), (121., -30.), (127., 30.)]}
LAGS = [(-73., 88.), (-101., 47.), (-25., 133.)]
ICS = [dict(OutletWidth=25, OutletBed=-1.0, LagoonBed=-1.0, BarrierElev=3.5), dict(OutletWidth=12, OutletBed=-2.5, LagoonBed=-.4, BarrierElev=4.1)]
BEAR = [0., 33., 75., 118., 160., 180., 217., 262., 301., 345.]


def case(c):
    shore, back, cliff, outlet = lines(c['shape'], OUTL[c['outlet']], LAGS[c['lag']], bluff=c.get('bluff', False))
    river = [0., -150.]
    IC = ICS[c['ic']]
    over = dict(conf.SPATIAL)
    over.update({'InitialConditions.' + k: v for k, v in IC.items()})
    # reference in fitted coordinates
    b = np.polyfit(shore[:, 0], shore[:, 1], 1)
    org = np.array([(river[0] + b[0] * (river[1] - b[1])) / (1 + b[0] ** 2), 0.])
    org[1] = b[0] * org[0] + b[1]
    e = np.array([1., b[0]]) / np.hypot(1, b[0])
    nrm = np.array([-e[1], e[0]])
    loc = lambda p: np.column_stack([(p - org) @ e, (p - org) @ nrm])
    tr, states, base = 0, [], None
    for deg in c['bear']:
        for shift in c['shift']:
            for flip in c['flip']:
                ln = [l[::-1] if fl else l for l, fl in zip((shore, back, cliff, outlet), flip)]
                conv = conf.rotate(np.deg2rad(deg), shift)
                with conf.Scratch() as d:
                    conf.shapes(d, ln[0], river, ln[1], ln[2], ln[3], conv)
                    m = conf.load(conf.setup(d, conf.config(**over)))
                tr += 1
                # a least squares line y(x) on the map is not the same line at every bearing: rebuild from the reported axes
                x_ = np.array([np.sin(m.ShoreNormDir + np.pi / 2), np.cos(m.ShoreNormDir + np.pi / 2)])
                s_ = np.array([np.sin(m.ShoreNormDir), np.cos(m.ShoreNormDir)])
                world = lambda p: np.column_stack([(conv(p) - m.Origin) @ x_, (conv(p) - m.Origin) @ s_])
                rv = world(np.array([river]))[0]
                if abs(rv[0]) > 1e-6:
                    raise Viol('river line is not at X = 0 but at %g' % rv[0], bearing=deg, shift=shift)
                if not rv[1] < -50:
                    raise Viol('river at Y = %g: shore normal does not point to sea' % rv[1], bearing=deg, shift=shift)
                turn = (np.rad2deg(m.ShoreNormDir) - deg + 180) % 360 - 180
                if abs(turn) > 20:
                    raise Viol('shore normal %g degrees off' % turn, bearing=deg)
                if c['shape'] == 'flat' and abs(turn) > 1e-6:
                    raise Viol('straight shoreline: shore normal %g degrees off' % turn, bearing=deg)
                sh = world(shore)
                # baseline: best line in map coordinates passes through the origin at right angles to the normal
                mp = conv(shore)
                A = np.column_stack([mp[:, 0] - mp[0, 0], np.ones(len(mp))])
                k, q = np.linalg.lstsq(A, mp[:, 1] - mp[0, 1], rcond=None)[0]
                tilt = abs((np.arctan2(1., k) - (m.ShoreNormDir + np.pi / 2) + np.pi / 2) % np.pi - np.pi / 2)
                if tilt > 1e-4 * (1 + k * k) ** .5 or abs((m.Origin[1] - mp[0, 1] - q - k * (m.Origin[0] - mp[0, 0]))) > 1e-2 * (1 + abs(k)):
                    raise Viol('baseline is not the fitted line through the shoreline', bearing=deg, k=k, normal=m.ShoreNormDir)
                X, Y, Z, ends, w, bed = grid(sh, world(back), world(cliff), world(outlet), IC, m.PhysicalPars)
                if m.ShoreX.size != X.size or not close(m.ShoreX, X):
                    raise Viol('transects %s, expected %s' % (m.ShoreX, X), bearing=deg, shift=shift)
                if not np.any(m.ShoreX == 0):
                    raise Viol('no transect on the river line', bearing=deg)
                for nm, got, want, tol in (('ShoreY', m.ShoreY, Y, 1e-4), ('ShoreZ', m.ShoreZ, Z, 1e-9), ('OutletEndX', m.OutletEndX, ends, 1e-9),
                                           ('OutletEndWidth', m.OutletEndWidth, w, 1e-9), ('OutletEndElev', m.OutletEndElev, bed, 1e-9)):
                    if not close(got, want, 0, tol):
                        raise Viol('%s is %s, expected %s' % (nm, np.asarray(got).tolist(), np.asarray(want).tolist()), bearing=deg, shift=shift, flip=flip)
                if m.Closed:
                    raise Viol('initial outlet is closed')
                # waves come from the supplied bearing less that of the shore normal, within half a turn
                rec = dict(zip(pd.to_datetime(conf.stamp(conf.WAVES[0]), dayfirst=True), conf.WAVES[1]['EDir_h']))
                want = [rec[t] - np.rad2deg(m.ShoreNormDir) for t in m.WaveTs.index]
                if any(abs((g - w_ + 180) % 360 - 180) > 1e-6 for g, w_ in zip(np.rad2deg(m.WaveTs.EDir_h.values), want)) or np.any(np.abs(m.WaveTs.EDir_h) > np.pi + 1e-9):
                    raise Viol('waves from %s reach a shore facing %g at %s' % (conf.WAVES[1]['EDir_h'], np.rad2deg(m.ShoreNormDir), np.rad2deg(m.WaveTs.EDir_h.values)), bearing=deg)
                if c['shape'] == 'flat':
                    got = np.concatenate([m.ShoreY.ravel(), m.ShoreZ.ravel(), m.OutletEndX])
                    if base is None:
                        base = got
                    elif not close(got, base, 0, 1e-4):
                        raise Viol('grid depends on orientation, position or digitising direction', bearing=deg, shift=shift, flip=flip)
                states.append(np.round(m.ShoreY, 4).tobytes())
    return {'transitions': tr, 'states': states, 'traces': tr}


def default(c):
    """Straight default grid."""
    L, Rr, dx = c['L'], c['R'], c['dx']
    with conf.Scratch() as d:
        m = conf.load(conf.setup(d, conf.config(**{'SpatialInputs.ShorelineLengthLeft': L, 'SpatialInputs.ShorelineLengthRight': Rr,
                                                   'SpatialInputs.BeachWidth': c['W'], 'NumericalParameters.Dx': dx,
                                                   'PhysicalParameters.UpstreamLength': c['up'], 'PhysicalParameters.SpitWidth': c['spit'],
                                                   'InitialConditions.OutletWidth': c['ow'], 'InitialConditions.OutletBed': c['ob']})))
    P = m.PhysicalPars
    X = m.ShoreX
    if not np.any(X == 0) or not np.allclose(np.diff(X), dx, atol=1e-9):
        raise Viol('transects %s: not every %g m with one at 0' % (X, dx))
    if not (-L - dx < X[0] <= -L and Rr <= X[-1] < Rr + dx):
        raise Viol('transects from %g to %g for shoreline %g left and %g right' % (X[0], X[-1], L, Rr))
    o = X == 0
    n = X.size
    Y, Z = np.full((n, 5), np.nan), np.full((n, 4), np.nan)
    Y[:, 0], Y[:, 3], Y[:, 4] = 0, -c['W'], -c['W']
    Y[o, 1] = -c['spit']
    Y[o, 2] = -c['spit'] - c['ow']
    Y[o, 3] = Y[o, 2] - .001
    Y[o, 4] = Y[o, 2] - P['RiverWidth']
    Z[:, 0], Z[:, 3] = 3.5, -1.
    Z[o, 1], Z[o, 2] = (c['ob'] - 1.) / 2, 3.5
    nr = int(np.ceil(c['up'] / dx))
    river = np.array([-1. + .003 * dx * (nr - 1 - k) for k in range(nr)])
    for nm, want in (('ShoreY', Y), ('ShoreZ', Z), ('OutletEndX', [0., 0.]), ('OutletEndWidth', c['ow']), ('OutletEndElev', c['ob']),
                     ('RiverElev', river), ('Origin', [0., 0.]), ('ShoreNormDir', 0.)):
        if not close(getattr(m, nm), want):
            raise Viol('%s is %s, expected %s' % (nm, np.asarray(getattr(m, nm)).tolist(), np.asarray(want).tolist()))
    for nm, size in (('LagoonWL', n), ('LagoonVel', n), ('OutletDep', n), ('OutletVel', n), ('RiverWL', nr), ('RiverVel', nr), ('OutletEndDep', 2), ('OutletEndVel', 2)):
        if getattr(m, nm).shape != (size,) or np.any(getattr(m, nm) != 0):
            raise Viol('%s is not a null initial condition' % nm)
    if m.Closed:
        raise Viol('initial outlet is closed')
    return {'transitions': 1, 'traces': 1, 'states': [X.tobytes()]}


def shipped(c):
    """The real site delivered with the model: every grid value lies on the mapped line it stands for."""
    import os, shutil, shapefile
    import pandas as pd
    from mc.repo import REPO, loadmod
    with conf.Scratch() as d:
        shutil.copytree(os.path.join(REPO, 'inputs'), 'in')
        i = pd.date_range('1998-01-01', '2018-06-01', freq='12h')
        w = pd.DataFrame(dict(WavePeriod=8., Wlen_h=70., WavePower=1e4, EDir_h=c['dir'], Hsig_Offshore=2.), index=i)
        for n in ('WaveData.csv', 'WaveDataRotated.csv'):
            w.to_csv(os.path.join('in', n), index_label='DateTime', date_format='%d/%m/%Y %H:%M')
        m = conf.load('in/HurunuiModel.cnf')
        L = {}
        for k, n in (('shore', 'HurunuiShoreline'), ('back', 'LagoonPolyline'), ('cliff', 'CliffPolyline'), ('outlet', 'InitialOutlet')):
            L[k] = [np.array(s.points) for s in shapefile.Reader('in/' + n + '.shp').shapes()]
        river = np.array(shapefile.Reader('in/RiverInflow.shp').shapes()[0].points[0])
    conv = conf.rotate(m.ShoreNormDir, m.Origin)

    def off(k, x, y):
        """Distance from a line."""
        p, best = conv(np.array([[x, y]]))[0], np.inf
        for l in L[k]:
            a, b = l[:-1], l[1:]
            t = np.clip(np.einsum('ij,ij->i', p - a, b - a) / np.maximum(np.einsum('ij,ij->i', b - a, b - a), 1e-12), 0, 1)
            best = min(best, np.hypot(*(a + t[:, None] * (b - a) - p).T).min())
        return best
    X, Y = m.ShoreX, m.ShoreY
    dx = m.NumericalPars['Dx']
    if not np.allclose(np.diff(X), dx) or np.min(np.abs(X)) > 1e-9:
        raise Viol('transects at %s' % X.tolist())
    u = conv(np.array([[0., 1.]]))[0] - conv(np.array([[0., 0.]]))[0]
    if abs(np.cross(river - m.Origin, u)) > 1e-3:
        raise Viol('the origin is not abreast of the river: %s %s' % (m.Origin, river))
    tr, tags = 0, {}
    for i, x in enumerate(X):
        for col, ks in ((0, ('shore',)), (4, ('cliff',)), (3, ('back', 'cliff'))):
            o = min(off(k, x, Y[i, col]) for k in ks)
            if not o < 1e-5:
                raise Viol('column %d at X = %g lies %.4f m from the line %s' % (col, x, o, ks))
            tr += 1
        if not np.isnan(Y[i, 1]):
            if not off('outlet', x, (Y[i, 1] + Y[i, 2]) / 2) < 1e-5 or abs(Y[i, 1] - Y[i, 2] - c['width']) > 1e-9:
                raise Viol('channel at X = %g from %g to %g is not around the mapped outlet' % (x, Y[i, 1], Y[i, 2]))
            tags['channel'] = tags.get('channel', 0) + 1
        if Y[i, 3] != Y[i, 4]:
            tags['lagoon'] = tags.get('lagoon', 0) + 1
    rel = np.mod(np.radians(c['dir']) - m.ShoreNormDir + np.pi, 2 * np.pi) - np.pi
    if not np.allclose(m.WaveTs.EDir_h, rel):
        raise Viol('waves from %g reach the shore facing %.2f at %s' % (c['dir'], np.degrees(m.ShoreNormDir), np.unique(m.WaveTs.EDir_h)[:5]))
    return {'transitions': tr, 'states': [c['dir']], 'traces': 1, 'tags': tags}


def refused(c):
    """A shoreline that doubles back cannot be represented and is refused, whichever way it was digitised."""
    shore, back, cliff, outlet = lines(c['shape'], OUTL['straight right'], LAGS[0])
    k = c['at']
    bad = np.vstack([shore[:k], [[shore[k, 0], shore[k, 1]], [shore[k, 0] - c['by'], shore[k, 1] + 9.]], shore[k + 1:]])
    tr = 0
    for deg in BEAR:
        conv = conf.rotate(np.deg2rad(deg), (1.6e6, 5.2e6))
        for line, ok in ((shore, True), (bad, False)):
            for flip in (False, True):
                with conf.Scratch() as d:
                    conf.shapes(d, line[::-1] if flip else line, [0., -150.], back, cliff, outlet, conv)
                    try:
                        m = conf.load(conf.setup(d, conf.config(**conf.SPATIAL)))
                    except Exception as e:
                        if ok:
                            raise Viol('shoreline refused: %s' % e, bearing=deg, flip=flip)
                    else:
                        if not ok:
                            raise Viol('a shoreline that doubles back by %g m at vertex %d is accepted: X %s, shoreline %s' % (c['by'], k, m.ShoreX.tolist(), m.ShoreY[:, 0].tolist()), bearing=deg, flip=flip)
                tr += 1
    return {'transitions': tr, 'states': [(k, c['by'])], 'traces': tr}


def spaces(tier):
    big = tier == 'thorough'
    flips = list(itertools.product([0, 1], repeat=4))
    if not big:
        flips = [f for f in flips if sum(f) in (0, 1, 4)]
    shifts = [(0., 0.), (1.6e6, 5.2e6)] + ([(-7e4, 3e5), (431., -977.)] if big else [])
    cs = [dict(shape=s, outlet=o, lag=l, ic=i, bear=[b], shift=shifts, flip=flips) for s in ('flat', 'wave', 'tilt') for o in OUTL
          for l in range(len(LAGS)) for i in (0, 1) for b in (BEAR if big else BEAR[::2]) if big or (l + i) % 2 == 0]
    # same grid at all orientations
    cs += [dict(shape='flat', outlet=o, lag=0, ic=1, bear=BEAR, shift=shifts, flip=[(0, 0, 0, 0), (1, 0, 1, 0), (0, 1, 0, 1)]) for o in OUTL]
    cs += [dict(shape=s, outlet=o, lag=0, ic=0, bear=[b], shift=shifts[1:2], flip=flips, bluff=True) for s in ('flat', 'wave') for o in ('right', 'left', 'hooked') for b in (BEAR if big else BEAR[1::4])]
    yield Space('refused', refused, [dict(shape=s, at=k, by=v) for s in ('flat', 'wave') for k in range(2, 9) for v in (6., 20.)], 'recurved shorelines x bearing x digitising direction')
    yield Space('supplied lines', case, cs, 'line shape x outlet x lagoon x bearing x shift x digitising directions', cpu=300)
    ds = [dict(L=L, R=r, dx=dx, W=w, up=u, spit=s, ow=ow, ob=ob) for L in (0, 100, 130, 95.5) for r in (60, 200, 47.) for dx in (10, 20, 7.5)
          for (w, s, ow, ob) in ((60, 10, 25, -1.), (40, 5, 12, -2.4)) for u in (50, 100, 133)]
    if not big:
        ds = ds[::2] + ds[1::6]
    yield Space('default grid', default, [d for d in ds if d['L'] > 0], 'domain lengths x spacing x widths')
    yield Space('shipped site', shipped, [dict(dir=float(a), width=35.) for a in ((0, 130, 215) if tier != 'thorough' else range(0, 360, 15))], 'the Hurunui setup of the repository', cpu=200)
